------------------------------- MODULE MCPool --------------------------------
(* The sleeping protocol of static_thread_pool, one shared access per step: no
   operation is stranded while its worker sleeps, none is run twice, and the pool
   can be stopped and joined.  Operations are handed in by external threads (to
   the remote queue of one worker) and by running operations (to the worker's own
   local queue, from which others may steal).  A state in which nobody can move
   although something is left to do is a deadlock, which TLC reports.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Workers, Enq, PerEnq, Child
\* operations: <<e, i>> handed in by thread e; <<e, i, 0>> its child, if Child
Ops == {<<e, i>> : e \in Enq, i \in 1..PerEnq}
All == Ops \union IF Child THEN {<<x[1], x[2], 0>> : x \in Ops} ELSE {}
VARIABLES rq, local, state, mut, cvw, stop, wpc, cur, old, epc, en, ew, ran, mpc
vars == <<rq, local, state, mut, cvw, stop, wpc, cur, old, epc, en, ew, ran, mpc>>
NoOne == "none"
Init ==
  /\ rq = [w \in Workers |-> {}] /\ local = [w \in Workers |-> {}]
  /\ state = [w \in Workers |-> "running"]
  /\ mut = [w \in Workers |-> NoOne] /\ cvw = [w \in Workers |-> FALSE] /\ stop = [w \in Workers |-> FALSE]
  /\ wpc = [w \in Workers |-> "try"] /\ cur = [w \in Workers |-> <<>>] /\ old = [e \in Enq |-> ""]
  /\ epc = [e \in Enq |-> "push"] /\ en = [e \in Enq |-> 1] /\ ew = [e \in Enq |-> CHOOSE w \in Workers : TRUE]
  /\ ran = [o \in All |-> 0] /\ mpc = <<"wait", 0>>

(* ---- a thread which hands in operations *)
Push(e) ==
  /\ epc[e] = "push" /\ en[e] <= PerEnq
  /\ \E w \in Workers :
       /\ rq' = [rq EXCEPT ![w] = @ \union {<<e, en[e]>>}]
       /\ ew' = [ew EXCEPT ![e] = w]
       /\ epc' = [epc EXCEPT ![e] = IF rq[w] = {} THEN "ntf" ELSE "push"]
  /\ en' = [en EXCEPT ![e] = @ + 1]
  /\ UNCHANGED <<local, state, mut, cvw, stop, wpc, cur, old, ran, mpc>>
Ntf(e) ==
  /\ epc[e] = "ntf"
  /\ old' = [old EXCEPT ![e] = state[ew[e]]]
  /\ state' = [state EXCEPT ![ew[e]] = "notified"]
  /\ epc' = [epc EXCEPT ![e] = IF state[ew[e]] = "sleeping" THEN "lock" ELSE "push"]
  /\ UNCHANGED <<rq, local, mut, cvw, stop, wpc, cur, en, ew, ran, mpc>>
NLock(e) ==
  /\ epc[e] = "lock" /\ mut[ew[e]] = NoOne      \* lock and unlock
  /\ epc' = [epc EXCEPT ![e] = "cv"]
  /\ UNCHANGED <<rq, local, state, mut, cvw, stop, wpc, cur, old, en, ew, ran, mpc>>
NCv(e) ==
  /\ epc[e] = "cv"
  /\ cvw' = [cvw EXCEPT ![ew[e]] = FALSE]
  /\ epc' = [epc EXCEPT ![e] = "push"]
  /\ UNCHANGED <<rq, local, state, mut, stop, wpc, cur, old, en, ew, ran, mpc>>

(* ---- a worker *)
Rest == <<old, epc, en, ew, mpc>>
Goto(w, p) == wpc' = [wpc EXCEPT ![w] = p]
TryLocal(w) ==
  /\ wpc[w] = "try"
  /\ IF local[w] # {}
     THEN \E o \in local[w] : /\ local' = [local EXCEPT ![w] = @ \ {o}]
                              /\ cur' = [cur EXCEPT ![w] = o] /\ Goto(w, "run")
     ELSE Goto(w, "remote") /\ UNCHANGED <<local, cur>>
  /\ UNCHANGED <<rq, state, mut, cvw, stop, ran, Rest>>
TakeRemote(w, found, none) ==
  IF rq[w] # {}
  THEN \E o \in rq[w] : /\ local' = [local EXCEPT ![w] = @ \union (rq[w] \ {o})]
                        /\ rq' = [rq EXCEPT ![w] = {}]
                        /\ cur' = [cur EXCEPT ![w] = o] /\ Goto(w, found)
  ELSE Goto(w, none) /\ UNCHANGED <<rq, local, cur>>
TryRemote(w) ==
  /\ wpc[w] = "remote" /\ TakeRemote(w, "run", "steal")
  /\ UNCHANGED <<state, mut, cvw, stop, ran, Rest>>
Run(w) ==      \* the operation may hand in another one, locally
  /\ wpc[w] = "run"
  /\ ran' = [ran EXCEPT ![cur[w]] = @ + 1]
  /\ local' = [local EXCEPT ![w] = IF Child /\ Len(cur[w]) = 2 THEN @ \union {<<cur[w][1], cur[w][2], 0>>} ELSE @]
  /\ cur' = [cur EXCEPT ![w] = <<>>] /\ Goto(w, "try")
  /\ UNCHANGED <<rq, state, mut, cvw, stop, Rest>>
Steal(w) ==    \* may succeed if another local queue has something; may always fail
  /\ wpc[w] = "steal"
  /\ \/ \E v \in Workers \ {w} : \E o \in local[v] :
          /\ local' = [local EXCEPT ![v] = @ \ {o}] /\ cur' = [cur EXCEPT ![w] = o] /\ Goto(w, "run")
     \/ Goto(w, "lock") /\ UNCHANGED <<local, cur>>
  /\ UNCHANGED <<rq, state, mut, cvw, stop, ran, Rest>>
Lock(w) ==
  /\ wpc[w] = "lock" /\ mut[w] = NoOne
  /\ mut' = [mut EXCEPT ![w] = w] /\ Goto(w, "stop?")
  /\ UNCHANGED <<rq, local, state, cvw, stop, cur, ran, Rest>>
StopQ(w) ==
  /\ wpc[w] = "stop?"
  /\ IF stop[w] THEN Goto(w, "out") /\ mut' = [mut EXCEPT ![w] = NoOne]
                ELSE Goto(w, "cas") /\ UNCHANGED mut
  /\ UNCHANGED <<rq, local, state, cvw, stop, cur, ran, Rest>>
Cas(w) ==
  /\ wpc[w] = "cas"
  /\ \/ state[w] = "running" /\ state' = [state EXCEPT ![w] = "sleeping"] /\ Goto(w, "poll")
     \/ Goto(w, "unlock") /\ UNCHANGED state        \* refused, or a spurious failure
  /\ UNCHANGED <<rq, local, mut, cvw, stop, cur, ran, Rest>>
Poll(w) ==
  /\ wpc[w] = "poll" /\ TakeRemote(w, "awake", "wait")
  /\ UNCHANGED <<state, mut, cvw, stop, ran, Rest>>
Awake(w) ==
  /\ wpc[w] = "awake"
  /\ state' = [state EXCEPT ![w] = IF @ = "sleeping" THEN "running" ELSE @]
  /\ mut' = [mut EXCEPT ![w] = NoOne] /\ Goto(w, "run")
  /\ UNCHANGED <<rq, local, cvw, stop, cur, ran, Rest>>
Wait(w) ==
  /\ wpc[w] = "wait"
  /\ cvw' = [cvw EXCEPT ![w] = TRUE] /\ mut' = [mut EXCEPT ![w] = NoOne] /\ Goto(w, "asleep")
  /\ UNCHANGED <<rq, local, state, stop, cur, ran, Rest>>
Wake(w) ==
  /\ wpc[w] = "asleep" /\ ~cvw[w] /\ mut[w] = NoOne     \* takes the mutex and gives it up again
  /\ Goto(w, "xchg")
  /\ UNCHANGED <<rq, local, state, mut, cvw, stop, cur, ran, Rest>>
Unlock(w) ==
  /\ wpc[w] = "unlock" /\ mut' = [mut EXCEPT ![w] = NoOne] /\ Goto(w, "xchg")
  /\ UNCHANGED <<rq, local, state, cvw, stop, cur, ran, Rest>>
Xchg(w) ==
  /\ wpc[w] = "xchg" /\ state' = [state EXCEPT ![w] = "running"] /\ Goto(w, "try")
  /\ UNCHANGED <<rq, local, mut, cvw, stop, cur, ran, Rest>>

(* ---- the owner of the pool: waits for the work, stops the workers, joins them *)
AllRan == \A o \in All : ran[o] = 1
Order == CHOOSE s \in [1..Cardinality(Workers) -> Workers] : \A x, y \in DOMAIN s : x # y => s[x] # s[y]
MWait == /\ mpc[1] = "wait" /\ AllRan /\ \A e \in Enq : epc[e] = "push"
         /\ mpc' = <<"slock", 1>>
         /\ UNCHANGED <<rq, local, state, mut, cvw, stop, wpc, cur, old, epc, en, ew, ran>>
MStop == /\ mpc[1] = "slock" /\ mut[Order[mpc[2]]] = NoOne
         /\ stop' = [stop EXCEPT ![Order[mpc[2]]] = TRUE] /\ mpc' = <<"scv", mpc[2]>>
         /\ UNCHANGED <<rq, local, state, mut, cvw, wpc, cur, old, epc, en, ew, ran>>
MCv == /\ mpc[1] = "scv"
       /\ cvw' = [cvw EXCEPT ![Order[mpc[2]]] = FALSE]
       /\ mpc' = IF mpc[2] = Cardinality(Workers) THEN <<"join", 0>> ELSE <<"slock", mpc[2] + 1>>
       /\ UNCHANGED <<rq, local, state, mut, stop, wpc, cur, old, epc, en, ew, ran>>
MJoin == /\ mpc[1] = "join" /\ \A w \in Workers : wpc[w] = "out"
         /\ mpc' = <<"end", 0>>
         /\ UNCHANGED <<rq, local, state, mut, cvw, stop, wpc, cur, old, epc, en, ew, ran>>
End == mpc[1] = "end" /\ UNCHANGED vars
Worker(w) == TryLocal(w) \/ TryRemote(w) \/ Run(w) \/ Steal(w) \/ Lock(w) \/ StopQ(w) \/ Cas(w) \/ Poll(w)
             \/ Awake(w) \/ Wait(w) \/ Wake(w) \/ Unlock(w) \/ Xchg(w)
Enqueuer(e) == Push(e) \/ Ntf(e) \/ NLock(e) \/ NCv(e)
Main == MWait \/ MStop \/ MCv \/ MJoin
Next == (\E w \in Workers : Worker(w)) \/ (\E e \in Enq : Enqueuer(e)) \/ Main \/ End
Spec == Init /\ [][Next]_vars
\* the refused branch of Cas may repeat for ever only if it keeps failing spuriously
FairSpec == Spec /\ (\A w \in Workers : WF_vars(Worker(w)) /\ SF_vars(Cas(w) /\ state'[w] = "sleeping"))
                 /\ (\A e \in Enq : WF_vars(Enqueuer(e))) /\ WF_vars(Main)
Once == \A o \in All : ran[o] <= 1
\* at rest nothing is left behind
NoStrand == (\A w \in Workers : wpc[w] = "asleep" /\ cvw[w]) /\ (\A e \in Enq : epc[e] = "push" /\ en[e] > PerEnq)
            => \A w \in Workers : rq[w] = {} /\ local[w] = {}
Ends == <>(mpc[1] = "end")
=============================================================================
