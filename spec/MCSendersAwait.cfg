SPECIFICATION Spec
CONSTANTS
  Unary = {}
  Binary = {}
  Shapes = {"aw"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
