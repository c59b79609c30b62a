SPECIFICATION Spec
CONSTANTS
  Unary = {"we", "un", "usr"}
  Binary = {"wa2"}
  Shapes = {"u", "uu", "b"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
