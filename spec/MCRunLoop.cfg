SPECIFICATION Spec
CONSTANTS Ops = {a, b}  Fins = {f, g}  None = None  Out = Out
INVARIANTS Drained OnlyWhenFinished ExactlyOnce StoppedOnlyIfAsked
PROPERTIES Fifo Returns EachRuns
CHECK_DEADLOCK FALSE
