SPECIFICATION LiveSpec
CONSTANTS As = {1, 2}  Js = {1, 2}  Ks = {}  Kind = "counting"  Kinds = {}
INVARIANTS CountRight JoinedMeansOver NothingLeft RefusedNeverRuns RunningIsTracked MayGo
PROPERTIES ClosedStays NoGrowth JoinEnds
CHECK_DEADLOCK FALSE
