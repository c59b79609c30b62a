SPECIFICATION Spec
CONSTANTS Js = {1}  Ks = {1, 2}
INVARIANTS RunningCounts CountsOnce NothingLeft
PROPERTIES EmptyMeansEmpty EmptyStays
CHECK_DEADLOCK FALSE
