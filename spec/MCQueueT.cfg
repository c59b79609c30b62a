SPECIFICATION Spec
CONSTANTS Ops = {1, 2, 3}  Items = {a, b, c, d}  Kind = "one"
INVARIANTS NoDup NoLoss NothingElse Told
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
