SPECIFICATION Spec
CONSTANTS
  Unary = {"co", "so", "on"}
  Binary = {}
  Shapes = {"u"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
