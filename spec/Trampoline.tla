----------------------------- MODULE Trampoline ------------------------------
(* trampoline_scheduler, per thread (P20).  The operation started when none is
   running on the thread is the origin: it runs at once, and its start() returns
   when everything it led to on this thread has run.  An operation started by a
   running one runs at once, if that makes at most Max of them nested, or else is
   deferred; deferred operations run, oldest first, when the running ones have
   returned.                                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Ops, Threads
VARIABLES stack,   \* per thread: what is in progress: <<"start", o>> (in start()), <<"run", o>> (completing)
          dq,      \* per thread: deferred operations
          st,      \* idle, starting, deferred, ran
          sA, sB,  \* stop requested: begun, returned
          mx
vars == <<stack, dq, st, sA, sB, mx>>
Init == /\ stack = [t \in Threads |-> <<>>] /\ dq = [t \in Threads |-> <<>>]
        /\ st = [o \in Ops |-> "idle"] /\ sA = [o \in Ops |-> FALSE] /\ sB = [o \in Ops |-> FALSE]
Top(t) == stack[t][Len(stack[t])]
Depth(t) == Cardinality({i \in 1..Len(stack[t]) : stack[t][i][1] = "run"})
Push(t, x) == stack' = [stack EXCEPT ![t] = Append(@, x)]
Pop(t) == stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Start(t, o) ==
  /\ st[o] = "idle" /\ (stack[t] # <<>> => Top(t)[1] = "run")
  /\ st' = [st EXCEPT ![o] = "starting"] /\ Push(t, <<"start", o>>)
  /\ UNCHANGED <<dq, sA, sB, mx>>
Chan(o, c) == IF c = "s" THEN sA[o] ELSE c = "v" /\ ~sB[o]
Run(t, o, c) ==
  /\ stack[t] # <<>> /\ Top(t)[1] = "start" /\ Chan(o, c)
  /\ \/ \* in its own start()
        /\ st[o] = "starting" /\ Top(t)[2] = o /\ (Depth(t) = 0 \/ Depth(t) < mx)
        /\ UNCHANGED dq
     \/ \* deferred, by the origin, which has itself run
        /\ Len(stack[t]) = 1 /\ st[Top(t)[2]] = "ran" /\ dq[t] # <<>> /\ Head(dq[t]) = o
        /\ dq' = [dq EXCEPT ![t] = Tail(@)]
  /\ st' = [st EXCEPT ![o] = "ran"] /\ Push(t, <<"run", o>>)
  /\ UNCHANGED <<sA, sB, mx>>
RunEnd(t, o) == /\ stack[t] # <<>> /\ Top(t) = <<"run", o>> /\ Pop(t) /\ UNCHANGED <<dq, st, sA, sB, mx>>
Ret(t, o) ==
  /\ stack[t] # <<>> /\ Top(t) = <<"start", o>>
  /\ \/ st[o] = "ran" /\ (Len(stack[t]) = 1 => dq[t] = <<>>) /\ UNCHANGED <<st, dq>>
     \/ /\ st[o] = "starting" /\ Len(stack[t]) > 1
        /\ st' = [st EXCEPT ![o] = "deferred"] /\ dq' = [dq EXCEPT ![t] = Append(@, o)]
  /\ Pop(t) /\ UNCHANGED <<sA, sB, mx>>
StopCall(o) == sA' = [sA EXCEPT ![o] = TRUE] /\ UNCHANGED <<stack, dq, st, sB, mx>>
StopRet(o) == sA[o] /\ sB' = [sB EXCEPT ![o] = TRUE] /\ UNCHANGED <<stack, dq, st, sA, mx>>
End == /\ \A t \in Threads : stack[t] = <<>> /\ \A o \in Ops : st[o] \in {"idle", "ran"}
       /\ UNCHANGED vars
Bounded == \A t \in Threads : Depth(t) <= IF mx < 1 THEN 1 ELSE mx
AllRun == (\A t \in Threads : stack[t] = <<>>) => \A o \in Ops : st[o] \in {"idle", "ran"}
=============================================================================
