---------------------------- MODULE TraceRunLoop ----------------------------
EXTENDS TraceLib
VARIABLES st, ch, sret, stopA, stopB, q, fin, drv, order
Ops == 0..5
Fins == 0..2
None == -1
Out == -2
S == INSTANCE RunLoop
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("st_call") /\ S!StartCall(Ev.i)
  \/ IsEvent("st_ret") /\ S!StartRet(Ev.i)
  \/ IsEvent("stop_call") /\ S!StopCall(Ev.i)
  \/ IsEvent("stop_ret") /\ S!StopRet(Ev.i)
  \/ IsEvent("run") /\ S!Run(Ev.i, Ev.c, Ev.t)
  \/ IsEvent("fin_call") /\ S!FinCall(Ev.f)
  \/ IsEvent("fin_ret") /\ S!FinRet(Ev.f)
  \/ IsEvent("loop_call") /\ S!LoopCall(Ev.t)
  \/ IsEvent("loop_ret") /\ S!LoopRet(Ev.t)
  \/ IsEvent("loop_call_any") /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, fin, drv, order>>
  \/ IsEvent("loop_ret_any") /\ S!LoopRet(drv)
  \/ Silent /\ "auto" \in DOMAIN Cfg /\ drv = None /\ Cfg.auto = 1 /\ S!LoopCall(Cfg.drv)
  \/ IsEvent("end") /\ (\A i \in Ops : st[i] \in {"idle", "done"}) /\ UNCHANGED <<st, ch, sret, stopA, stopB, q, fin, drv, order>>
  \/ Silent /\ \E i \in Ops : S!StartLin(i)
  \/ Silent /\ \E f \in Fins : S!FinLin(f)
  \/ Silent /\ (S!Take("v") \/ S!Take("s"))
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, S!vars>>
TraceInv == S!Drained /\ S!OnlyWhenFinished /\ S!ExactlyOnce /\ S!StoppedOnlyIfAsked
=============================================================================
