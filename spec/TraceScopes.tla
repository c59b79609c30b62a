----------------------------- MODULE TraceScopes -----------------------------
EXTENDS TraceLib
CONSTANT Kind
VARIABLES cnt, closed, used, joining, joined, as, cl, js, jret, jsA, ssA, ssB, w, kd, ret, bad, live, mem, ass, rdy, seen, res, fs, fsA, fsB
As == 1..6
Js == 1..3
Ks == 1..4
S == INSTANCE Scopes
v == <<cnt, closed, used, joining, joined, as, cl, js, jret, jsA, ssA, ssB, w, kd, ret, bad, live, mem, ass, rdy, seen, res, fs, fsA, fsB>>
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("as_call") /\ S!AssocCall(Ev.a)
  \/ IsEvent("as_ret") /\ S!AssocRet(Ev.a, Ev.ok = 1)
  \/ IsEvent("rel_call") /\ S!RelCall(Ev.a)
  \/ IsEvent("rel_ret") /\ S!RelRet(Ev.a)
  \/ IsEvent("close_call") /\ S!CloseCall
  \/ IsEvent("close_ret") /\ S!CloseRet
  \/ IsEvent("stop_call") /\ S!StopCall
  \/ IsEvent("stop_ret") /\ S!StopRet
  \/ IsEvent("jstop") /\ S!JoinStop(Ev.j)
  \/ IsEvent("j_call") /\ S!JoinCall(Ev.j)
  \/ IsEvent("j_done") /\ S!JoinDone(Ev.j, Ev.c, Ev.sch = 1)
  \/ IsEvent("j_ret") /\ S!JoinRet(Ev.j)
  \/ IsEvent("gone") /\ S!Gone
  \/ IsEvent("w_call") /\ S!WorkCall(Ev.k, Ev.kind)
  \/ IsEvent("w_ret") /\ S!WorkRet(Ev.k)
  \/ IsEvent("w_thr") /\ S!WorkThrow(Ev.k)
  \/ IsEvent("alc") /\ S!Alloc(Ev.k, Ev.n)
  \/ IsEvent("dea") /\ S!Dealloc(Ev.k, Ev.n)
  \/ IsEvent("con") /\ S!Connect(Ev.k)
  \/ IsEvent("sta") /\ S!LeafStart(Ev.k)
  \/ IsEvent("rdy") /\ S!LeafReady(Ev.k)
  \/ IsEvent("unr") /\ S!LeafUnready(Ev.k)
  \/ IsEvent("sto") /\ S!LeafStop(Ev.k)
  \/ IsEvent("cmp") /\ S!LeafDone(Ev.k, Ev.c, Ev.v)
  \/ IsEvent("des") /\ S!LeafDes(Ev.k)
  \/ IsEvent("f_con") /\ S!FutConnect(Ev.k)
  \/ IsEvent("f_sta") /\ S!FutStart(Ev.k)
  \/ IsEvent("f_done") /\ S!FutDone(Ev.k, Ev.c, Ev.v)
  \/ IsEvent("f_drop") /\ S!FutDropCall(Ev.k)
  \/ IsEvent("f_gone") /\ S!FutDropRet(Ev.k)
  \/ IsEvent("fs_call") /\ S!FutStopCall(Ev.k)
  \/ IsEvent("fs_ret") /\ S!FutStopRet(Ev.k, Ev.lis = 1)
  \/ Silent /\ \/ S!CloseLin
               \/ \E a \in As : S!AssocLin(a) \/ S!RelLin(a)
               \/ \E j \in Js : S!JoinLin(j)
               \/ \E k \in Ks : S!WorkLin(k) \/ S!WorkRel(k)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, v>>
TraceInv == S!CountRight /\ S!JoinedMeansOver /\ S!RefusedNeverRuns /\ S!RunningIsTracked
=============================================================================
