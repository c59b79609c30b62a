------------------------------ MODULE TraceJobs ------------------------------
EXTENDS TraceLib
VARIABLES j, gone
S == INSTANCE Jobs WITH Jobs <- 1..23
v == <<j, gone>>
\* cfg: the context's threads lo..hi; named: jobs run exactly on the worker asked for; must: stop requests are honoured
Where == Cfg.lo <= Ev.t /\ Ev.t <= Cfg.hi
There(o) == Cfg.named = 1 => Ev.t = Cfg.lo + j[o].w - 1
\* the starting thread may end an operation that was stopped before its start
Inl == "inl" \in DOMAIN Cfg /\ Cfg.inl = 1
Must == Cfg.must = 1
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("sta") /\ S!Start(Ev.o, Ev.n, Ev.w, Ev.q = 1)
  \/ IsEvent("ret") /\ S!Ret(Ev.o)
  \/ IsEvent("stop_call") /\ S!StopCall(Ev.o)
  \/ IsEvent("stop_ret") /\ S!StopRet(Ev.o)
  \/ IsEvent("fn_b") /\ S!FnBegin(Ev.o, Ev.b, Ev.f, Where, There(Ev.o), Must)
  \/ IsEvent("fn_e") /\ S!FnEnd(Ev.o, Ev.b, Ev.f, Ev.x)
  \/ IsEvent("done") /\ S!Done(Ev.o, Ev.c, Ev.v, Where \/ (Inl /\ Ev.c = "s" /\ j[Ev.o].sA), There(Ev.o), Must)
  \/ IsEvent("bk_done") /\ S!BkDone(Ev.o, Ev.c, Ev.v)
  \/ IsEvent("bk_tok") /\ S!BkTok(Ev.o, Ev.has = 1, Ev.r = 1)
  \/ IsEvent("eq") /\ Ev.r = (IF Ev.a = Ev.b THEN 1 ELSE 0) /\ UNCHANGED v
  \/ IsEvent("one") /\ Ev.n = 1 /\ UNCHANGED v
  \/ IsEvent("gone") /\ S!Gone
  \/ IsEvent("end") /\ S!End
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
=============================================================================
