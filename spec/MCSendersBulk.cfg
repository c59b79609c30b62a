SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {}
  Shapes = {"bl", "fjq"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
