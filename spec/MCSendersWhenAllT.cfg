SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {"wa2"}
  Shapes = {"b", "ub", "bu"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
