------------------------------- MODULE Timers -------------------------------
(* A timer service: timers complete once, never before and not (by more than
   Slack) after their deadline, in deadline order; stopping one completes it
   promptly; closing the service completes everything.                         *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Ops, Slack

VARIABLES st,     \* idle starting on done
          how,    \* "", "v", "s"
          dl,     \* deadline
          tret,   \* time at which start() returned, or -1
          sA, sB, \* a stop request was begun; time at which one returned, or -1
          pre,    \* stop had been requested before the timer was started
          prec,   \* timers whose start had returned before this one was started
          now, closing, closed
vars == <<st, how, dl, tret, sA, sB, pre, prec, now, closing, closed>>

Init ==
  /\ st = [i \in Ops |-> "idle"] /\ how = [i \in Ops |-> ""] /\ dl = [i \in Ops |-> 0]
  /\ tret = [i \in Ops |-> -1] /\ sA = [i \in Ops |-> FALSE] /\ sB = [i \in Ops |-> -1]
  /\ pre = [i \in Ops |-> FALSE] /\ prec = [i \in Ops |-> {}]
  /\ now = 0 /\ closing = FALSE /\ closed = FALSE

At(t) == t >= now /\ now' = t
StartCall(i, d, t) ==
  /\ At(t) /\ ~closing /\ st[i] = "idle" /\ st' = [st EXCEPT ![i] = "starting"]
  /\ dl' = [dl EXCEPT ![i] = d] /\ pre' = [pre EXCEPT ![i] = sB[i] >= 0]
  /\ prec' = [prec EXCEPT ![i] = {j \in Ops : tret[j] >= 0}]
  /\ UNCHANGED <<how, tret, sA, sB, closing, closed>>
StartRet(i, t) ==
  /\ At(t) /\ st[i] # "idle" /\ tret[i] = -1
  /\ tret' = [tret EXCEPT ![i] = t] /\ st' = [st EXCEPT ![i] = IF @ = "starting" THEN "on" ELSE @]
  /\ UNCHANGED <<how, dl, sA, sB, pre, prec, closing, closed>>
StopCall(i, t) == At(t) /\ sA' = [sA EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, how, dl, tret, sB, pre, prec, closing, closed>>
StopRet(i, t) ==
  /\ At(t) /\ sA[i] /\ sB[i] = -1 /\ sB' = [sB EXCEPT ![i] = t]
  /\ UNCHANGED <<st, how, dl, tret, sA, pre, prec, closing, closed>>
Max(a, b) == IF a > b THEN a ELSE b
Live(j) == st[j] = "on" /\ ~sA[j]
(* i may expire at time t *)
MayExpire(i, t) ==
  /\ t >= dl[i]
  /\ ~pre[i]
  /\ sB[i] >= 0 => sB[i] + Slack >= dl[i] \/ tret[i] = -1 \/ tret[i] + Slack >= dl[i]
  /\ tret[i] >= 0 => t <= Max(dl[i], tret[i]) + Slack
  (* timers queued in time and due earlier go first; equal ones in start order *)
  /\ \A j \in Ops : (Live(j) /\ dl[j] < dl[i]) => tret[j] + Slack >= dl[i]
  /\ \A j \in prec[i] : (Live(j) /\ dl[j] = dl[i]) => FALSE
MayStop(i, t) ==
  \/ closing
  \/ /\ sA[i]
     /\ (sB[i] >= 0 /\ tret[i] >= 0) => t <= Max(sB[i], tret[i]) + Slack
Done(i, c, t) ==
  /\ At(t) /\ ~closed /\ st[i] \in {"starting", "on"}
  /\ \/ c = "v" /\ MayExpire(i, t)
     \/ c = "s" /\ MayStop(i, t)
  /\ st' = [st EXCEPT ![i] = "done"] /\ how' = [how EXCEPT ![i] = c]
  /\ UNCHANGED <<dl, tret, sA, sB, pre, prec, closing, closed>>
CloseCall(t) == At(t) /\ ~closing /\ closing' = TRUE /\ UNCHANGED <<st, how, dl, tret, sA, sB, pre, prec, closed>>
(* the service goes away only when nothing is left *)
CloseRet(t) ==
  /\ At(t) /\ closing /\ ~closed /\ closed' = TRUE /\ \A i \in Ops : st[i] \in {"idle", "done"}
  /\ UNCHANGED <<st, how, dl, tret, sA, sB, pre, prec, closing>>
=============================================================================
