SPECIFICATION Spec
CONSTANTS
  Unary = {"then", "ue", "us", "sopt", "serr", "iv"}
  Binary = {}
  Shapes = {"u"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
