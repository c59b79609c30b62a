SPECIFICATION TraceSpec
CONSTANT Kind = "counting"
INVARIANT TraceInv
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
