SPECIFICATION MCSpec
CONSTANTS
  Depth = 1
  MaxB = 2
  Kinds = {"wa", "wf", "fn", "fnq", "fna", "task", "thn"}
  Roots = {"conn", "spawn", "sf"}
INVARIANTS Placed InLive Disjoint Failed Answer
CHECK_DEADLOCK FALSE
