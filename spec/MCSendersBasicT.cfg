SPECIFICATION Spec
CONSTANTS
  Unary = {"then", "ue", "us", "sopt", "serr", "iv"}
  Binary = {}
  Shapes = {"u", "uu"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
