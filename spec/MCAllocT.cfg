SPECIFICATION MCSpec
CONSTANTS
  Depth = 2
  MaxB = 3
  Kinds = {"wa", "wf", "fn", "fnq", "fna", "task", "thn"}
  Roots = {"conn", "spawn", "sf", "es"}
INVARIANTS Placed InLive Disjoint Failed Answer
CHECK_DEADLOCK FALSE
