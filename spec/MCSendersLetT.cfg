SPECIFICATION Spec
CONSTANTS
  Unary = {"then"}
  Binary = {"lv", "le", "ls"}
  Shapes = {"b", "ub", "bu"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
