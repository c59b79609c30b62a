---------------------------- MODULE MCTrampoline -----------------------------
EXTENDS Trampoline
Next == \/ \E t \in Threads, o \in Ops : Start(t, o) \/ Ret(t, o) \/ RunEnd(t, o) \/ \E c \in {"v", "s"} : Run(t, o, c)
        \/ \E o \in Ops : (~sA[o] /\ StopCall(o)) \/ (~sB[o] /\ StopRet(o))
        \/ End
MCInit == Init /\ mx \in 0..2
Spec == MCInit /\ [][Next]_vars
\* an operation deferred earlier runs earlier: the queue is in order of deferral by construction;
\* nothing is both deferred and running, or twice in the queue
Sane == \A t \in Threads : \A i, k \in 1..Len(dq[t]) :
          st[dq[t][i]] = "deferred" /\ (i # k => dq[t][i] # dq[t][k])
=============================================================================
