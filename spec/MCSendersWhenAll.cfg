SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {"wa2"}
  Shapes = {"b"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
