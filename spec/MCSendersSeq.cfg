SPECIFICATION Spec
CONSTANTS
  Unary = {"rn", "ru"}
  Binary = {"seq2"}
  Shapes = {"u", "b"}
INVARIANTS Nesting Barrier StartedFirst MustMay Outcome Progress
CHECK_DEADLOCK FALSE
