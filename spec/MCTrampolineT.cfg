SPECIFICATION Spec
INVARIANT Bounded AllRun Sane
CONSTANTS
  Ops = {1, 2, 3, 4}
  Threads = {1, 2}
