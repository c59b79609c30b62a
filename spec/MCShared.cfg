SPECIFICATION LiveSpec
CONSTANTS Hs = {1, 2}  Kinds = {"split", "ensure", "detached"}
INVARIANTS NoUseAfter SameForAll
PROPERTIES Once Served Freed
CHECK_DEADLOCK FALSE
