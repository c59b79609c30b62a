SPECIFICATION Spec
CONSTANTS Ops = {1, 2, 3}  Slack = 0  TMax = 2
INVARIANTS StoppedOnlyIfAsked NeverEarly StopFirst NoneStuck
PROPERTIES Once
CHECK_DEADLOCK FALSE
