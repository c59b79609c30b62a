---------------------------- MODULE TraceSyncWait ----------------------------
EXTENDS TraceLib
VARIABLES w, tk
S == INSTANCE SyncWait
TraceInit == TraceLibInit /\ S!InitWith(Cfg.nw, Cfg.nt)
TraceNext ==
  \/ IsEvent("call") /\ S!Call(Ev.i, Ev.t)
  \/ IsEvent("con") /\ S!Connect(Ev.i, Ev.t)
  \/ IsEvent("cth") /\ S!ConnectThrows(Ev.i, Ev.t, Ev.v)
  \/ IsEvent("sta") /\ S!Start(Ev.i, Ev.t)
  \/ IsEvent("tst") /\ S!TaskStart(Ev.i, Ev.j)
  \/ IsEvent("trun") /\ S!TaskRun(Ev.j, Ev.t)
  \/ IsEvent("cmp") /\ S!Complete(Ev.i, Ev.c, Ev.v, Ev.t)
  \/ IsEvent("thr") /\ S!CopyThrows(Ev.i, Ev.v)
  \/ IsEvent("des") /\ S!Destroy(Ev.i, Ev.t)
  \/ IsEvent("ret") /\ S!Ret(Ev.i, Ev.c, Ev.v, Ev.t)
  \/ IsEvent("end") /\ Ev.live = 0 /\ S!Quiet /\ UNCHANGED <<w, tk>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, S!vars>>
TraceInv == S!NoLate /\ S!Answered
=============================================================================
