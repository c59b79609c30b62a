---------------------------- MODULE MCAsyncScope ----------------------------
EXTENDS AsyncScope
Env ==
  \/ ~ssA /\ StopCall
  \/ \E j \in Js : EmptyCall(j)
  \/ \E k \in Ks : \/ \E x \in {"spawn", "future", "nest"} : WorkCall(k, x)
                     \/ FutConnect(k) \/ FutStart(k) \/ FutDropCall(k) \/ (~fsA[k] /\ fs[k] = "start" /\ FutStop(k))
Impl ==
  \/ ~ssB /\ StopRet
  \/ \E j \in Js : EmptyLin(j) \/ EmptyRun(j) \/ EmptyDone(j) \/ (~eret[j] /\ EmptyRet(j))
  \/ \E k \in Ks : \/ Connect(k) \/ Inc(k) \/ WorkThrow(k) \/ WorkRet(k) \/ LeafStart(k) \/ (~rdy[k] /\ w[k] = "run" /\ LeafReady(k))
                     \/ LeafStop(k) \/ LeafDone(k, "v", 1) \/ LeafDone(k, "s", 0) \/ LeafDes(k) \/ Dec(k)
                     \/ FutDone(k, "v", 1) \/ FutDone(k, "s", 0) \/ FutDropRet(k) \/ FutThrow(k)
Spec == Init /\ [][Env \/ Impl]_vars
Fair ==
  /\ \A j \in Js : WF_vars(EmptyLin(j)) /\ WF_vars(EmptyRun(j) \/ EmptyDone(j))
  /\ \A k \in Ks : /\ WF_vars(Connect(k) \/ Inc(k) \/ LeafStart(k)) /\ WF_vars(LeafStop(k)) /\ WF_vars(LeafDone(k, "v", 1)) /\ WF_vars(LeafDes(k)) /\ WF_vars(Dec(k))
                    /\ WF_vars(FutDone(k, "v", 1) \/ FutDone(k, "s", 0)) /\ WF_vars(FutDropRet(k))
LiveSpec == Spec /\ Fair
(* new work may start for ever, but with finitely much work a waiter is served *)
EmptyEnds == \A j \in Js : (es[j] = "reg") ~> (es[j] = "done")
=============================================================================
