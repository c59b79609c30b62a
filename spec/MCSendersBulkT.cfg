SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {}
  Shapes = {"bl", "fj", "fjt", "bfj"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
