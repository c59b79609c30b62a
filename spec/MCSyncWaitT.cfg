SPECIFICATION Spec
CONSTANTS
  NW = 3
  NT = 2
  Threads = {0, 1}
INVARIANTS NoLate Answered Progress

CHECK_DEADLOCK FALSE
