SPECIFICATION Spec
CONSTANTS
  Unary = {"co", "so", "on"}
  Binary = {}
  Shapes = {"u", "uu"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
