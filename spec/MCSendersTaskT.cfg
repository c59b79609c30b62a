SPECIFICATION Spec
CONSTANTS
  Unary = {}
  Binary = {}
  Shapes = {"t1", "t2", "tt", "t2t"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
