--------------------------- MODULE TraceTrampoline ---------------------------
EXTENDS TraceLib
VARIABLES stack, dq, st, sA, sB, mx
S == INSTANCE Trampoline WITH Ops <- 1..30, Threads <- 0..3
v == <<stack, dq, st, sA, sB, mx>>
TraceInit == TraceLibInit /\ S!Init /\ mx = Cfg.mx
TraceNext ==
  \/ IsEvent("sta") /\ S!Start(Ev.t, Ev.o)
  \/ IsEvent("ret") /\ S!Ret(Ev.t, Ev.o)
  \/ IsEvent("run") /\ S!Run(Ev.t, Ev.o, Ev.c)
  \/ IsEvent("run_end") /\ S!RunEnd(Ev.t, Ev.o)
  \/ IsEvent("stop_call") /\ S!StopCall(Ev.o)
  \/ IsEvent("stop_ret") /\ S!StopRet(Ev.o)
  \/ IsEvent("end") /\ S!End
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!Bounded
=============================================================================
