SPECIFICATION Spec
CONSTANTS
  Unary = {}
  Binary = {}
  Shapes = {"aw", "aw2"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
