SPECIFICATION Spec
CONSTANTS Ops = {1, 2}  Slack = 0  TMax = 2
INVARIANTS StoppedOnlyIfAsked NeverEarly StopFirst NoneStuck
PROPERTIES Once Completes Closes
CHECK_DEADLOCK FALSE
