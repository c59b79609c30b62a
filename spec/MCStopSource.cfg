SPECIFICATION Spec
CONSTANTS
  Cbs = {k1, k2}
  Reqs = {r1, r2}
  Threads = {a, b}
  None = None
INVARIANTS TypeOK OneWinner RunsOnlyWhenStopped NoneLeftBehind Deregistered SourceGone
PROPERTIES AtMostOnce StopIsSticky
CHECK_DEADLOCK FALSE
