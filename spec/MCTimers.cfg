SPECIFICATION Spec
CONSTANTS Ops = {1, 2}  Slack = 0  TMax = 1
INVARIANTS StoppedOnlyIfAsked NeverEarly StopFirst NoneStuck
PROPERTIES Once Completes
CHECK_DEADLOCK FALSE
