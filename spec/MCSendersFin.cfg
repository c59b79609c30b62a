SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {"fin"}
  Shapes = {"b"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
