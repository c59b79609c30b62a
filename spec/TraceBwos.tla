------------------------------ MODULE TraceBwos ------------------------------
EXTENDS TraceLib
VARIABLES lo, cur, blk, NB, BS, op, st, in, out
Thieves == 1..3
S == INSTANCE Bwos
v == <<lo, cur, blk, NB, BS, op, st, in, out>>
TraceInit == TraceLibInit /\ S!Init /\ NB = Cfg.nb /\ BS = Cfg.bs
TraceNext ==
  \/ IsEvent("push_call") /\ S!PushCall(<<Ev.v>>)
  \/ IsEvent("bulk_call") /\ S!PushCall([i \in 1..Ev.n |-> Ev.v + i - 1])
  \/ IsEvent("push_ret") /\ S!PushRet(Ev.k)
  \/ IsEvent("pop_call") /\ S!PopCall
  \/ IsEvent("pop_ret") /\ S!PopRet(Ev.v)
  \/ IsEvent("st_call") /\ S!StealCall(Ev.h, Cfg.strict = 1)
  \/ IsEvent("st_ret") /\ S!StealRet(Ev.h, Ev.v)
  \/ IsEvent("end") /\ S!End
  \/ Silent /\ (S!PushLin \/ S!Advance \/ S!PushFull(Cfg.strict = 1) \/ S!PopLin \/ S!Retreat \/ S!PopNone)
  \/ Silent /\ \E t \in Thieves : S!StealLin(t) \/ S!StealNone(t)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!Conserved /\ S!Shape /\ S!Ordered
=============================================================================
