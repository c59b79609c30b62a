-------------------------- MODULE TraceStopSource --------------------------
EXTENDS TraceLib

VARIABLES stopped, winner, req, reqT, cb, runner, owner, dereg, deregT, src, srcT

Cbs == 0..5
Reqs == 0..3
Threads == 0..7
None == -1

S == INSTANCE StopSource

TraceInit == TraceLibInit /\ S!Init

TraceNext ==
  \/ IsEvent("req_call") /\ S!ReqCall(Ev.r, Ev.t)
  \/ IsEvent("req_ret") /\ S!ReqRet(Ev.r, Ev.b = 1)
  \/ IsEvent("reg_call") /\ S!RegCall(Ev.k, Ev.t)
  \/ IsEvent("reg_ret") /\ S!RegRet(Ev.k)
  \/ IsEvent("run_b") /\ S!RunBegin(Ev.k, Ev.t)
  \/ IsEvent("run_e") /\ S!RunEnd(Ev.k, Ev.t)
  \/ IsEvent("dereg_call") /\ S!DeregCall(Ev.k, Ev.t)
  \/ IsEvent("dereg_ret") /\ S!DeregRet(Ev.k, Ev.t)
  \/ IsEvent("q") /\ S!Query(Ev.b = 1)
  \/ IsEvent("src_call") /\ S!SrcCall(Ev.t)
  \/ IsEvent("src_ret") /\ S!SrcRet(Ev.t)
  \/ Silent /\ \E r \in Reqs : S!ReqLin(r)
  \/ Silent /\ \E k \in Cbs : S!RegLin(k) \/ S!DeregLin(k)

TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, S!vars>>
TraceInv == S!OneWinner /\ S!RunsOnlyWhenStopped /\ S!NoneLeftBehind /\ S!Deregistered /\ S!SourceGone
=============================================================================
