SPECIFICATION Spec
CONSTANTS As = {1, 2, 3}  Js = {1, 2, 3}  Ks = {}  Kind = "counting"  Kinds = {}
INVARIANTS CountRight JoinedMeansOver NothingLeft RefusedNeverRuns RunningIsTracked MayGo
PROPERTIES ClosedStays NoGrowth
CHECK_DEADLOCK FALSE
