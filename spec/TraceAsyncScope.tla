--------------------------- MODULE TraceAsyncScope ---------------------------
EXTENDS TraceLib
VARIABLES ssA, ssB, es, eret, w, kd, ret, live, act, was, rdy, seen, res, fs, fsA
Js == 1..4
Ks == 1..2
S == INSTANCE AsyncScope
v == <<ssA, ssB, es, eret, w, kd, ret, live, act, was, rdy, seen, res, fs, fsA>>
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("stop_call") /\ S!StopCall
  \/ IsEvent("stop_ret") /\ S!StopRet
  \/ IsEvent("e_call") /\ S!EmptyCall(Ev.j)
  \/ IsEvent("e_run") /\ S!EmptyRun(Ev.j)
  \/ IsEvent("e_done") /\ S!EmptyDone(Ev.j)
  \/ IsEvent("e_ret") /\ S!EmptyRet(Ev.j)
  \/ IsEvent("gone") /\ S!Gone
  \/ IsEvent("w_call") /\ S!WorkCall(Ev.k, Ev.kind)
  \/ IsEvent("w_ret") /\ S!WorkRet(Ev.k)
  \/ IsEvent("w_thr") /\ S!WorkThrow(Ev.k)
  \/ IsEvent("con") /\ S!Connect(Ev.k)
  \/ IsEvent("sta") /\ S!LeafStart(Ev.k)
  \/ IsEvent("rdy") /\ S!LeafReady(Ev.k)
  \/ IsEvent("unr") /\ S!LeafUnready(Ev.k)
  \/ IsEvent("sto") /\ S!LeafStop(Ev.k)
  \/ IsEvent("cmp") /\ S!LeafDone(Ev.k, Ev.c, Ev.v)
  \/ IsEvent("des") /\ S!LeafDes(Ev.k)
  \/ IsEvent("f_con") /\ S!FutConnect(Ev.k)
  \/ IsEvent("f_thr") /\ S!FutThrow(Ev.k)
  \/ IsEvent("f_sta") /\ S!FutStart(Ev.k)
  \/ IsEvent("f_done") /\ S!FutDone(Ev.k, Ev.c, Ev.v)
  \/ IsEvent("f_drop") /\ S!FutDropCall(Ev.k)
  \/ IsEvent("f_gone") /\ S!FutDropRet(Ev.k)
  \/ IsEvent("fs_call") /\ S!FutStop(Ev.k)
  \/ Silent /\ \/ \E j \in Js : S!EmptyLin(j)
               \/ \E k \in Ks : S!Inc(k) \/ S!Dec(k)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!RunningCounts /\ S!CountsOnce /\ S!NothingLeft
=============================================================================
