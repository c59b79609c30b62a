SPECIFICATION LiveSpec
CONSTANTS Js = {1}  Ks = {1}
INVARIANTS RunningCounts CountsOnce NothingLeft
PROPERTIES EmptyMeansEmpty EmptyStays EmptyEnds
CHECK_DEADLOCK FALSE
