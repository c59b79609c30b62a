------------------------------ MODULE MCTimers ------------------------------
EXTENDS Timers
CONSTANT TMax
(* time passes only when nothing is due *)
Due(i) == st[i] = "on" /\ (MayExpire(i, now) \/ (sA[i] /\ MayStop(i, now)))
Tick ==
  /\ now < TMax /\ ~closing /\ \A i \in Ops : st[i] # "starting" /\ ~Due(i) /\ (sA[i] => sB[i] >= 0)
  /\ now' = now + 1 /\ UNCHANGED <<st, how, dl, tret, sA, sB, pre, prec, closing, closed>>
Next ==
  \/ \E i \in Ops, d \in 0..TMax : StartCall(i, d, now)
  \/ \E i \in Ops : \/ StartRet(i, now) \/ (~sA[i] /\ StopCall(i, now)) \/ StopRet(i, now)
                    \/ Done(i, "v", now) \/ Done(i, "s", now)
  \/ Tick \/ ((\A i \in Ops : st[i] # "starting" /\ (st[i] = "done" => tret[i] >= 0)) /\ CloseCall(now)) \/ CloseRet(now)
Fairness == /\ \A i \in Ops : WF_vars(StartRet(i, now)) /\ WF_vars(StopRet(i, now)) /\ WF_vars(Done(i, "v", now) \/ Done(i, "s", now))
            /\ WF_vars(Tick)
            /\ WF_vars(CloseRet(now))
Spec == Init /\ [][Next]_vars /\ Fairness
StoppedOnlyIfAsked == \A i \in Ops : how[i] = "s" => sA[i] \/ closing
NeverEarly == \A i \in Ops : how[i] = "v" => now >= dl[i]
StopFirst == \A i \in Ops : (pre[i] /\ st[i] = "done") => how[i] = "s"
(* no reachable state is stuck: every queued timer that is due can complete *)
NoneStuck == \A i \in Ops : (st[i] = "on" /\ now >= dl[i] /\ ~pre[i] /\ ~sA[i]) => \E j \in Ops : Due(j)
Once == [][\A i \in Ops : st[i] = "done" => st'[i] = "done" /\ how'[i] = how[i]]_vars
Completes == \A i \in Ops : (st[i] = "on") ~> (st[i] = "done")
Closes == closing ~> closed
=============================================================================
