----------------------------- MODULE TraceShared -----------------------------
EXTENDS TraceLib
VARIABLES kd, mk, mem, live, w, rdy, seen, res, hs, out, fsA
Hs == 1..6
S == INSTANCE Shared
v == <<kd, mk, mem, live, w, rdy, seen, res, hs, out, fsA>>
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("mk_call") /\ S!MkCall(Ev.kind)
  \/ IsEvent("mk_ret") /\ S!MkRet(1)
  \/ IsEvent("mk_thr") /\ S!MkThrow
  \/ IsEvent("copy") /\ S!Copy(Ev.h)
  \/ IsEvent("alc") /\ S!Alloc(Ev.n)
  \/ IsEvent("dea") /\ S!Dealloc(Ev.n)
  \/ IsEvent("con") /\ S!Connect
  \/ IsEvent("sta") /\ S!LeafStart
  \/ IsEvent("rdy") /\ S!LeafReady
  \/ IsEvent("unr") /\ S!LeafUnready
  \/ IsEvent("sto") /\ S!LeafStop
  \/ IsEvent("cmp") /\ S!LeafDone(Ev.c, Ev.v)
  \/ IsEvent("des") /\ S!LeafDes
  \/ IsEvent("f_con") /\ S!HConnect(Ev.h)
  \/ IsEvent("f_sta") /\ S!HStart(Ev.h)
  \/ IsEvent("f_done") /\ S!HDone(Ev.h, Ev.c, Ev.v)
  \/ IsEvent("f_drop") /\ S!HDropCall(Ev.h)
  \/ IsEvent("f_gone") /\ S!HDropRet(Ev.h)
  \/ IsEvent("fs_call") /\ S!HStopCall(Ev.h)
  \/ IsEvent("fs_ret") /\ S!HStopRet(Ev.h)
  \/ IsEvent("end") /\ S!End
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!NoUseAfter /\ S!SameForAll
=============================================================================
