----------------------------- MODULE TraceAlloc -----------------------------
EXTENDS TraceLib
VARIABLES prog, blk, used, loc, fails, leaf, out, rq
S == INSTANCE Alloc
svars == <<prog, blk, used, loc, fails, leaf, out, rq>>
TraceInit == TraceLibInit /\ S!InitWith(Cfg)
TraceNext ==
  \/ IsEvent("alc") /\ S!Alc(Ev.b, Ev.r, Ev.n, Ev.al)
  \/ IsEvent("alf") /\ S!AlcFails(Ev.r)
  \/ IsEvent("dea") /\ S!Dea(Ev.b, Ev.r, Ev.n, Ev.al)
  \/ IsEvent("at") /\ S!At(Ev.i, Ev.b, Ev.mis)
  \/ IsEvent("off") /\ S!Off(Ev.i)
  \/ IsEvent("fr") /\ S!Frame(Ev.i, Ev.b)
  \/ IsEvent("fro") /\ S!FrameOff(Ev.i)
  \/ IsEvent("use") /\ S!Use(Ev.i, Ev.r, Ev.b)
  \/ IsEvent("lthr") /\ S!LeafThrows
  \/ IsEvent("strt") /\ S!Start(Ev.i, Ev.a, Ev.f)
  \/ IsEvent("req") /\ S!Req(Ev.h, Ev.q, Ev.n)
  \/ IsEvent("got") /\ S!Got(Ev.h, Ev.b, Ev.off, Ev.mis)
  \/ IsEvent("rqf") /\ S!Refused(Ev.h)
  \/ IsEvent("eq") /\ S!Equal(Ev.x, Ev.y)
  \/ IsEvent("rel") /\ S!Rel(Ev.h, Ev.ok)
  \/ IsEvent("reld") /\ S!Reld(Ev.h)
  \/ IsEvent("lc") /\ S!LeafDone(Ev.c)
  \/ IsEvent("cmp") /\ S!Complete(Ev.c)
  \/ IsEvent("thr") /\ S!Throw
  \/ IsEvent("drop") /\ S!Drop
  \/ IsEvent("end") /\ Ev.live = 0 /\ S!Quiet /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, svars>>
TraceInv == S!Disjoint /\ S!InLive
=============================================================================
