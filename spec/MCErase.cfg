SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Kinds = {1, 3}
  Vals = {1, 2}
INVARIANT Accounted
PROPERTY SwapKeeps
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
