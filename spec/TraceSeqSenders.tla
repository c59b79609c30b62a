--------------------------- MODULE TraceSeqSenders ---------------------------
EXTENDS TraceLib
VARIABLES nodes, iav, st, its, res, cand, setl, ced, stp, look, fin
S == INSTANCE SeqSenders
v == <<nodes, iav, st, its, res, cand, setl, ced, stp, look, fin>>
TraceInit == TraceLibInit /\ nodes = Cfg.nodes /\ iav = (Cfg.iav = 1) /\ S!Init
TraceEv ==
  \/ IsEvent("sub") /\ S!Sub(Ev.n)
  \/ IsEvent("subx") /\ S!SubX(Ev.n)
  \/ IsEvent("sta") /\ S!Sta(Ev.n)
  \/ IsEvent("nx") /\ S!Nx(Ev.n, Ev.i)
  \/ IsEvent("nxx") /\ S!NxX(Ev.n, Ev.i)
  \/ IsEvent("ncx") /\ S!NcX(Ev.n, Ev.i)
  \/ IsEvent("icx") /\ S!IcX(Ev.n, Ev.i)
  \/ IsEvent("ns") /\ S!NS(Ev.n, Ev.i)
  \/ IsEvent("is") /\ S!IS(Ev.n, Ev.i)
  \/ IsEvent("ic") /\ S!IC(Ev.n, Ev.i, Ev.c, Ev.v)
  \/ IsEvent("nd") /\ S!ND(Ev.n, Ev.i, Ev.c)
  \/ IsEvent("cmp") /\ S!Cmp(Ev.n, Ev.c, Ev.v)
  \/ IsEvent("ced") /\ S!Ced(Ev.n)
  \/ IsEvent("fin") /\ S!Fin(Ev.c, Ev.v)
  \/ IsEvent("stopb") /\ S!StopB
  \/ IsEvent("stope") /\ S!StopE
  \/ IsEvent("look") /\ S!Look(Ev.n)
  \/ IsEvent("saw") /\ S!Saw(Ev.n, Ev.y = 1)
  \/ IsEvent("end") /\ Ev.live = 0 /\ S!End
TraceNext == TraceEv /\ UNCHANGED <<nodes, iav>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!DoneMeansOver /\ S!DoneMeansBelowOver /\ S!OneToOne
=============================================================================
