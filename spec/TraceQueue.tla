----------------------------- MODULE TraceQueue -----------------------------
EXTENDS TraceLib
VARIABLES items, op, what, weak, empt, failed, dirty, con, got, out, stub, may
Ops == 1..14
Items == 1..20
S == INSTANCE Queue
v == <<items, op, what, weak, empt, failed, dirty, con, got, out, stub, may>>
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("push_call") /\ S!PushCall(Ev.o, Ev.is, Ev.w = 1)
  \/ IsEvent("push_ret") /\ S!PushRet(Ev.o, Ev.ok = 1, Ev.b = 1)
  \/ IsEvent("prep_ret") /\ S!PushRet(Ev.o, TRUE, empt[Ev.o])
  \/ IsEvent("take_call") /\ S!TakeCall
  \/ IsEvent("take_ret") /\ S!TakeRet(Ev.is, Ev.new = 1)
  \/ IsEvent("wait_ret") /\ S!WaitRet
  \/ IsEvent("empty") /\ S!Query(Ev.b = 1)
  \/ IsEvent("end") /\ items = <<>> /\ UNCHANGED v
  \/ Silent /\ \E o \in Ops : S!PushLin(o, Cfg.kind) \/ S!PushFail(o)
  \/ Silent /\ Cfg.kind = "one" /\ S!MarkIdle
  \/ Silent /\ S!TakeLin(Cfg.kind)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
=============================================================================
