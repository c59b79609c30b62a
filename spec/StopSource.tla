----------------------------- MODULE StopSource -----------------------------
(* Stop sources, tokens and callbacks ([stopsource.inplace],
   [stopcallback.inplace]): one action per critical section / visible step.
   Which linked callback runs next is deliberately left open.                  *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Cbs, Reqs, Threads, None

VARIABLES stopped,   \* a request_stop call has taken effect
          winner,    \* the request call that took effect
          req,       \* per request call: "idle" "pending" "won" "lost" "ret"
          reqT,      \* thread of each request call
          cb,        \* per callback: life cycle state
          runner,    \* thread that ran / is running the callback
          owner,     \* thread that is registering the callback
          dereg,     \* per callback: "no" "pending" "ret"
          deregT,
          src,       \* the source itself: "alive" "dying" "gone"
          srcT       \* thread which destroys it

vars == <<stopped, winner, req, reqT, cb, runner, owner, dereg, deregT, src, srcT>>

CbStates == {"idle", "registering", "linked", "inline", "running", "ran", "gone"}

Init ==
  /\ stopped = FALSE /\ winner = None
  /\ req = [r \in Reqs |-> "idle"] /\ reqT = [r \in Reqs |-> None]
  /\ cb = [k \in Cbs |-> "idle"] /\ runner = [k \in Cbs |-> None]
  /\ owner = [k \in Cbs |-> None]
  /\ dereg = [k \in Cbs |-> "no"] /\ deregT = [k \in Cbs |-> None]
  /\ src = "alive" /\ srcT = None

ReqCall(r, t) ==
  /\ src = "alive" /\ req[r] = "idle"
  /\ req' = [req EXCEPT ![r] = "pending"] /\ reqT' = [reqT EXCEPT ![r] = t]
  /\ UNCHANGED <<stopped, winner, cb, runner, owner, dereg, deregT, src, srcT>>

(* the linearization point of request_stop *)
ReqLin(r) ==
  /\ req[r] = "pending"
  /\ IF stopped
       THEN req' = [req EXCEPT ![r] = "lost"] /\ UNCHANGED <<stopped, winner, src, srcT>>
       ELSE req' = [req EXCEPT ![r] = "won"] /\ stopped' = TRUE /\ winner' = r
  /\ UNCHANGED <<reqT, cb, runner, owner, dereg, deregT, src, srcT>>

(* The winning call returns only when no callback is left to be run by it. *)
ReqRet(r, b) ==
  /\ \/ b /\ req[r] = "won"
        /\ \A k \in Cbs : cb[k] # "linked" /\ ~(cb[k] = "running" /\ runner[k] = reqT[r])
     \/ ~b /\ req[r] = "lost"
  /\ req' = [req EXCEPT ![r] = "ret"]
  /\ UNCHANGED <<stopped, winner, reqT, cb, runner, owner, dereg, deregT, src, srcT>>

RegCall(k, t) ==
  /\ src = "alive" /\ cb[k] = "idle"
  /\ cb' = [cb EXCEPT ![k] = "registering"] /\ owner' = [owner EXCEPT ![k] = t]
  /\ UNCHANGED <<stopped, winner, req, reqT, runner, dereg, deregT, src, srcT>>

RegLin(k) ==
  /\ cb[k] = "registering"
  /\ cb' = [cb EXCEPT ![k] = IF stopped THEN "inline" ELSE "linked"]
  /\ UNCHANGED <<stopped, winner, req, reqT, runner, owner, dereg, deregT, src, srcT>>

RegRet(k) ==
  /\ owner[k] # None
  /\ cb[k] \notin {"registering", "inline"}
  /\ ~(cb[k] = "running" /\ runner[k] = owner[k])
  /\ owner' = [owner EXCEPT ![k] = None]
  /\ UNCHANGED <<stopped, winner, req, reqT, cb, runner, dereg, deregT, src, srcT>>

RunBegin(k, t) ==
  /\ stopped
  /\ \/ cb[k] = "linked" /\ req[winner] = "won" /\ reqT[winner] = t
     \/ cb[k] = "inline" /\ owner[k] = t
  /\ cb' = [cb EXCEPT ![k] = "running"] /\ runner' = [runner EXCEPT ![k] = t]
  /\ UNCHANGED <<stopped, winner, req, reqT, owner, dereg, deregT, src, srcT>>

RunEnd(k, t) ==
  /\ cb[k] = "running" /\ runner[k] = t
  /\ cb' = [cb EXCEPT ![k] = "ran"]
  /\ UNCHANGED <<stopped, winner, req, reqT, runner, owner, dereg, deregT, src, srcT>>

DeregCall(k, t) ==
  /\ dereg[k] = "no" /\ cb[k] \notin {"idle", "registering", "inline"}
  /\ dereg' = [dereg EXCEPT ![k] = "pending"] /\ deregT' = [deregT EXCEPT ![k] = t]
  /\ UNCHANGED <<stopped, winner, req, reqT, cb, runner, owner, src, srcT>>

DeregLin(k) ==
  /\ dereg[k] = "pending" /\ cb[k] = "linked"
  /\ cb' = [cb EXCEPT ![k] = "gone"]
  /\ UNCHANGED <<stopped, winner, req, reqT, runner, owner, dereg, deregT, src, srcT>>

(* Destruction returns only when the callback can no longer run and is not
   running, unless it is being destroyed from within its own invocation.      *)
DeregRet(k, t) ==
  /\ dereg[k] = "pending" /\ deregT[k] = t
  /\ \/ cb[k] \in {"gone", "ran"}
     \/ cb[k] = "running" /\ runner[k] = t
  /\ dereg' = [dereg EXCEPT ![k] = "ret"]
  /\ UNCHANGED <<stopped, winner, req, reqT, cb, runner, owner, deregT, src, srcT>>

(* The source may be destroyed once no call on it will follow and every callback has
   been destroyed; a request_stop call may still be executing (a callback may complete
   the operation which owns the source), on the same thread or on another. *)
SrcCall(t) ==
  /\ src = "alive"
  /\ \A k \in Cbs : cb[k] = "idle" \/ dereg[k] = "ret"
  /\ \A r \in Reqs : req[r] # "pending"
  /\ src' = "dying" /\ srcT' = t
  /\ UNCHANGED <<stopped, winner, req, reqT, cb, runner, owner, dereg, deregT>>

(* its destructor returns only when no other thread is inside a callback *)
SrcRet(t) ==
  /\ src = "dying" /\ srcT = t
  /\ \A k \in Cbs : ~(cb[k] = "running" /\ runner[k] # t)
  /\ src' = "gone"
  /\ UNCHANGED <<stopped, winner, req, reqT, cb, runner, owner, dereg, deregT, srcT>>

(* stop_requested() on the source or a token *)
Query(b) == b = stopped /\ UNCHANGED vars

-----------------------------------------------------------------------------
Next ==
  \/ \E r \in Reqs, t \in Threads : ReqCall(r, t)
  \/ \E r \in Reqs : ReqLin(r) \/ ReqRet(r, TRUE) \/ ReqRet(r, FALSE)
  \/ \E k \in Cbs, t \in Threads : RegCall(k, t) \/ RunBegin(k, t) \/ RunEnd(k, t)
                                   \/ DeregCall(k, t) \/ DeregRet(k, t)
  \/ \E k \in Cbs : RegLin(k) \/ RegRet(k) \/ DeregLin(k)
  \/ \E t \in Threads : SrcCall(t) \/ SrcRet(t)

Fairness ==
  /\ \A r \in Reqs : WF_vars(ReqLin(r)) /\ WF_vars(ReqRet(r, TRUE)) /\ WF_vars(ReqRet(r, FALSE))
  /\ \A k \in Cbs : /\ WF_vars(RegLin(k)) /\ WF_vars(RegRet(k)) /\ WF_vars(DeregLin(k))
                    /\ \A t \in Threads : WF_vars(RunBegin(k, t)) /\ WF_vars(RunEnd(k, t)) /\ WF_vars(DeregRet(k, t))
  /\ \A t \in Threads : WF_vars(SrcRet(t))

Spec == Init /\ [][Next]_vars /\ Fairness

TypeOK == cb \in [Cbs -> CbStates]
(* exactly one request call ever wins *)
OneWinner == Cardinality({r \in Reqs : req[r] = "won"} \cup (IF winner = None THEN {} ELSE {winner})) <= 1
(* no callback runs unless stop was requested; none is left behind *)
RunsOnlyWhenStopped == \A k \in Cbs : cb[k] \in {"inline", "running", "ran"} => stopped
NoneLeftBehind == (winner # None /\ req[winner] = "ret") => \A k \in Cbs : cb[k] # "linked"
(* after a deregistration has returned the callback is not running elsewhere
   and never starts *)
Deregistered == \A k \in Cbs : dereg[k] = "ret" =>
                   cb[k] \in {"gone", "ran"} \/ (cb[k] = "running" /\ runner[k] = deregT[k])
(* nobody is left to use a source which is gone, except the call which is about to
   return because the source was destroyed inside it *)
SourceGone == src = "gone" =>
  /\ \A k \in Cbs : cb[k] \notin {"registering", "linked", "inline"}
  /\ \A k \in Cbs : cb[k] = "running" => runner[k] = srcT
AtMostOnce == [][\A k \in Cbs : cb[k] \in {"ran", "gone"} => cb'[k] = cb[k]]_vars
StopIsSticky == [][stopped => stopped']_vars
(* every callback whose registration finished before a stop request and which
   nobody deregisters is run *)
EventuallyRun == \A k \in Cbs : (stopped /\ cb[k] = "linked") ~> (cb[k] # "linked")
DeregReturns == \A k \in Cbs : (dereg[k] = "pending") ~> (dereg[k] = "ret")
SrcReturns == (src = "dying") ~> (src = "gone")
ReqReturns == \A r \in Reqs : (req[r] = "pending") ~> (req[r] = "ret")
=============================================================================
