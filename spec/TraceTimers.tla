----------------------------- MODULE TraceTimers -----------------------------
EXTENDS TraceLib
VARIABLES st, how, dl, tret, sA, sB, pre, prec, now, closing, closed
Ops == 1..8
Slack == 5000  \* microseconds of virtual time
S == INSTANCE Timers
v == <<st, how, dl, tret, sA, sB, pre, prec, now, closing, closed>>
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("st_call") /\ S!StartCall(Ev.i, Ev.d, Ev.us)
  \/ IsEvent("st_ret") /\ S!StartRet(Ev.i, Ev.us)
  \/ IsEvent("stop_call") /\ S!StopCall(Ev.i, Ev.us)
  \/ IsEvent("stop_ret") /\ S!StopRet(Ev.i, Ev.us)
  \/ IsEvent("done") /\ S!Done(Ev.i, Ev.c, Ev.us)
  \/ IsEvent("close_call") /\ S!CloseCall(Ev.us)
  \/ IsEvent("close_ret") /\ S!CloseRet(Ev.us)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
=============================================================================
