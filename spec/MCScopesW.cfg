SPECIFICATION LiveSpec
CONSTANTS As = {}  Js = {1}  Ks = {1}  Kind = "counting"  Kinds = {"spawn", "future", "assoc"}
INVARIANTS CountRight JoinedMeansOver NothingLeft RefusedNeverRuns RunningIsTracked MayGo
PROPERTIES ClosedStays NoGrowth JoinEnds
CHECK_DEADLOCK FALSE
