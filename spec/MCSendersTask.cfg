SPECIFICATION Spec
CONSTANTS
  Unary = {}
  Binary = {}
  Shapes = {"t1q"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
