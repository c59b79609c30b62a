SPECIFICATION Spec
INVARIANT Bounded AllRun Sane
CONSTANTS
  Ops = {1, 2, 3}
  Threads = {1}
