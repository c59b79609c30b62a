------------------------------- MODULE RunLoop -------------------------------
(* run_loop: a FIFO of started operations, drained by the one thread inside
   run(), which returns once finish() has taken effect and nothing is left.    *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Ops, Fins, None, Out

VARIABLES st,      \* per operation: idle starting queued taken done
          ch,      \* the channel decided when the operation was taken
          sret,    \* its start() has returned
          stopA, stopB, \* a stop request on its receiver has begun / has returned
          q,       \* the queue
          fin,     \* per finish() call: idle pending lin ret
          drv,     \* thread inside run(), None before, Out after
          order    \* history: order in which operations were started and run
vars == <<st, ch, sret, stopA, stopB, q, fin, drv, order>>

Init ==
  /\ st = [i \in Ops |-> "idle"] /\ ch = [i \in Ops |-> ""] /\ sret = [i \in Ops |-> FALSE]
  /\ stopA = [i \in Ops |-> FALSE] /\ stopB = [i \in Ops |-> FALSE]
  /\ q = <<>> /\ fin = [f \in Fins |-> "idle"] /\ drv = None /\ order = <<>>

StartCall(i) ==
  /\ st[i] = "idle" /\ st' = [st EXCEPT ![i] = "starting"]
  /\ UNCHANGED <<ch, sret, stopA, stopB, q, fin, drv, order>>
StartLin(i) ==
  /\ st[i] = "starting" /\ st' = [st EXCEPT ![i] = "queued"] /\ q' = Append(q, i)
  /\ UNCHANGED <<ch, sret, stopA, stopB, fin, drv, order>>
StartRet(i) ==
  /\ st[i] \notin {"idle", "starting"} /\ ~sret[i] /\ sret' = [sret EXCEPT ![i] = TRUE]
  /\ UNCHANGED <<st, ch, stopA, stopB, q, fin, drv, order>>
StopCall(i) == stopA' = [stopA EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, ch, sret, stopB, q, fin, drv, order>>
StopRet(i) == stopA[i] /\ stopB' = [stopB EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, ch, sret, stopA, q, fin, drv, order>>

LoopCall(t) == drv = None /\ drv' = t /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, fin, order>>
(* the driving thread takes the oldest operation and looks at its stop token *)
Take(c) ==
  /\ drv \notin {None, Out} /\ q # <<>>
  /\ \A j \in Ops : st[j] # "taken"
  /\ c = "s" => stopA[Head(q)]
  /\ c = "v" => ~stopB[Head(q)]
  /\ st' = [st EXCEPT ![Head(q)] = "taken"] /\ ch' = [ch EXCEPT ![Head(q)] = c] /\ q' = Tail(q)
  /\ UNCHANGED <<sret, stopA, stopB, fin, drv, order>>
Run(i, c, t) ==
  /\ st[i] = "taken" /\ ch[i] = c /\ drv = t
  /\ st' = [st EXCEPT ![i] = "done"] /\ order' = Append(order, i)
  /\ UNCHANGED <<ch, sret, stopA, stopB, q, fin, drv>>

FinCall(f) == fin[f] = "idle" /\ fin' = [fin EXCEPT ![f] = "pending"] /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, drv, order>>
FinLin(f) == fin[f] = "pending" /\ fin' = [fin EXCEPT ![f] = "lin"] /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, drv, order>>
FinRet(f) == fin[f] = "lin" /\ fin' = [fin EXCEPT ![f] = "ret"] /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, drv, order>>
Finished == \E f \in Fins : fin[f] \in {"lin", "ret"}

LoopRet(t) ==
  /\ drv = t /\ Finished /\ q = <<>> /\ \A i \in Ops : st[i] # "taken"
  /\ drv' = Out
  /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, fin, order>>
-----------------------------------------------------------------------------
(* environment of the model: nothing is started once run() may return *)
MayStart == ~ \E f \in Fins : fin[f] # "idle"
Next ==
  \/ \E i \in Ops : \/ (MayStart /\ StartCall(i)) \/ StartLin(i) \/ StartRet(i)
                    \/ (~stopA[i] /\ StopCall(i)) \/ (~stopB[i] /\ StopRet(i))
                    \/ Run(i, "v", "d") \/ Run(i, "s", "d")
  \/ LoopCall("d") \/ LoopRet("d") \/ Take("v") \/ Take("s")
  \/ \E f \in Fins : ((\A i \in Ops : st[i] # "starting") /\ FinCall(f)) \/ FinLin(f) \/ FinRet(f)
Fairness ==
  /\ \A i \in Ops : WF_vars(StartLin(i)) /\ WF_vars(Run(i, "v", "d") \/ Run(i, "s", "d"))
  /\ WF_vars(LoopCall("d")) /\ WF_vars(LoopRet("d")) /\ WF_vars(Take("v") \/ Take("s"))
  /\ \A f \in Fins : WF_vars(FinLin(f))
Spec == Init /\ [][Next]_vars /\ Fairness

Drained == drv = Out => \A i \in Ops : st[i] \in {"idle", "done"}
OnlyWhenFinished == drv = Out => Finished
ExactlyOnce == \A i \in Ops : Cardinality({k \in 1..Len(order) : order[k] = i}) = (IF st[i] = "done" THEN 1 ELSE 0)
StoppedOnlyIfAsked == \A i \in Ops : ch[i] = "s" => stopA[i]
(* FIFO: what is still queued was started after everything that has run *)
Fifo == [][q' # q => ((q # <<>> /\ q' = Tail(q)) \/ \E i \in Ops : q' = Append(q, i))]_vars
Returns == ((\E f \in Fins : fin[f] # "idle") ~> (drv = Out))
EachRuns == \A i \in Ops : (st[i] = "starting") ~> (st[i] = "done")
=============================================================================
