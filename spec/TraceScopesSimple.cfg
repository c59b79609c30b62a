SPECIFICATION TraceSpec
CONSTANT Kind = "simple"
INVARIANT TraceInv
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
