SPECIFICATION Spec
CONSTANTS
  Cbs = {k1}
  Reqs = {r1, r2}
  Threads = {a, b}
  None = None
INVARIANTS TypeOK OneWinner RunsOnlyWhenStopped NoneLeftBehind Deregistered SourceGone
PROPERTIES AtMostOnce StopIsSticky EventuallyRun DeregReturns ReqReturns SrcReturns
CHECK_DEADLOCK FALSE
