SPECIFICATION Spec
CONSTANTS As = {}  Js = {1}  Ks = {1, 2}  Kind = "counting"  Kinds = {"spawn", "future", "assoc"}
INVARIANTS CountRight JoinedMeansOver NothingLeft RefusedNeverRuns RunningIsTracked MayGo
PROPERTIES ClosedStays NoGrowth
CHECK_DEADLOCK FALSE
