SPECIFICATION Spec
CONSTANTS
  NW = 2
  NT = 2
  Threads = {0, 1}
INVARIANTS NoLate Answered Progress
PROPERTY Returns
CHECK_DEADLOCK FALSE
