SPECIFICATION Spec
CONSTANTS Nodes = {1, 2, 3, 4}  Keys = {1, 2, 3}
INVARIANTS FrontExists
PROPERTIES Sorted
CHECK_DEADLOCK FALSE
