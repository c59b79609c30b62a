---------------------------- MODULE TraceSenders ----------------------------
EXTENDS TraceLib
VARIABLES tree, nd, stp, pre, reps
S == INSTANCE Senders

TraceInit == TraceLibInit /\ S!InitWith(Cfg.nodes, Cfg.pre = 1, Cfg.reps)

TraceNext ==
  \/ IsEvent("con") /\ S!Connect(Ev.n)
  \/ IsEvent("cth") /\ S!ConnectThrows(Ev.n)
  \/ /\ IsEvent("sta") /\ S!Start(Ev.n, Ev.t, Ev.sr = 1)
     /\ Ev.sp = (IF S!StopPossible(Ev.n) THEN 1 ELSE 0)
     /\ Ev.q0 = S!Tag(Ev.n, 0) /\ Ev.q1 = S!Tag(Ev.n, 1)
     /\ Ev.sc = S!SchedEnv(Ev.n)
  \/ IsEvent("fn") /\ S!CallFn(Ev.n, Ev.v, Ev.t)
  \/ IsEvent("bk") /\ S!BulkCall(Ev.n, Ev.b, Ev.l, Ev.v, Ev.t)
  \/ IsEvent("ss") /\ S!SchedStart(Ev.n, Ev.r, Ev.x, Ev.t)
  \/ IsEvent("sc") /\ S!SchedDone(Ev.n, Ev.r, Ev.x, Ev.c, Ev.v, Ev.t)
  \/ IsEvent("cmp") /\ S!Complete(Ev.n, Ev.c, Ev.v, Ev.t, Ev.sr = 1)
  \/ IsEvent("ret") /\ S!Return(Ev.n, Ev.k)
  \/ IsEvent("des") /\ S!Destroy(Ev.n)
  \/ IsEvent("loc") /\ IF Ev.b = 1 THEN S!LocBegin(Ev.n, Ev.i, Ev.t) ELSE S!LocEnd(Ev.n, Ev.i, Ev.t)
  \/ IsEvent("xr") /\ S!ExitReg(Ev.n, Ev.i, Ev.t)
  \/ IsEvent("ax") /\ S!ExitRun(Ev.n, Ev.i, Ev.t)
  \/ IsEvent("stopb") /\ S!StopBegin(Ev.w)
  \/ IsEvent("stope") /\ S!StopEnd(Ev.w)
  \/ IsEvent("end") /\ Ev.live = 0 /\ S!Quiet /\ UNCHANGED <<tree, nd, stp, pre, reps>>

TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, S!vars>>
TraceInv == S!Nesting /\ S!Barrier /\ S!StartedFirst
=============================================================================
