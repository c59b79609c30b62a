SPECIFICATION TraceSpec
INVARIANT TraceInv
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
