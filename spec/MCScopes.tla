------------------------------ MODULE MCScopes ------------------------------
EXTENDS Scopes
CONSTANTS Kinds
Env ==
  \/ \E a \in As : AssocCall(a) \/ RelCall(a)
  \/ cl = "no" /\ CloseCall
  \/ ~ssA /\ Kind = "counting" /\ StopCall
  \/ \E j \in Js : JoinCall(j) \/ (~jsA[j] /\ js[j] \in {"reg", "rdy"} /\ JoinStop(j))
  \/ \E k \in Ks : \/ \E x \in Kinds : WorkCall(k, x)
                     \/ FutConnect(k) \/ FutStart(k) \/ (fs[k] # "start" /\ FutDropCall(k))
                     \/ (~fsA[k] /\ fs[k] = "start" /\ FutStopCall(k))
Impl ==
  \/ CloseLin
  \/ ~ssB /\ StopRet
  \/ \E a \in As : AssocLin(a) \/ RelLin(a) \/ AssocRet(a, TRUE) \/ AssocRet(a, FALSE)
  \/ \E j \in Js : \/ JoinLin(j) \/ (~jret[j] /\ JoinRet(j))
                     \/ \E c \in {"v", "s"}, s \in BOOLEAN : JoinDone(j, c, s)
  \/ \E k \in Ks : \/ (w[k] = "call" /\ Alloc(k, 1)) \/ Connect(k) \/ WorkLin(k) \/ WorkThrow(k) \/ WorkRet(k)
                     \/ LeafStart(k) \/ (~rdy[k] /\ LeafReady(k)) \/ LeafUnready(k) \/ LeafStop(k)
                     \/ LeafDone(k, "v", 1) \/ LeafDone(k, "s", 0)
                     \/ LeafDes(k)
                     \/ ((Over(k) \/ w[k] = "call") /\ Dealloc(k, 1)) \/ WorkRel(k)
                     \/ FutDone(k, "v", 1) \/ FutDone(k, "s", 0) \/ FutDropRet(k)
                     \/ (~fsB[k] /\ FutStopRet(k, TRUE))
Next == Env \/ Impl \/ (Gone /\ FALSE)
Spec == Init /\ [][Next]_vars
(* what the caller has to do for the scope to come to its end: it releases its
   associations and does not sit on futures; work completes                     *)
Fair == WF_vars(\/ CloseLin \/ \E a \in As : RelCall(a) \/ AssocLin(a) \/ RelLin(a) \/ AssocRet(a, TRUE) \/ AssocRet(a, FALSE))
   /\ \A j \in Js : WF_vars(JoinLin(j)) /\ WF_vars(~jret[j] /\ JoinRet(j)) /\ WF_vars(\E c \in {"v", "s"}, s \in BOOLEAN : JoinDone(j, c, s))
   /\ \A k \in Ks : /\ WF_vars((w[k] = "call" /\ Alloc(k, 1)) \/ Connect(k) \/ WorkLin(k)) /\ WF_vars(WorkRet(k)) /\ WF_vars(LeafStart(k))
                     /\ WF_vars(LeafDone(k, "v", 1)) /\ WF_vars(LeafDes(k)) /\ WF_vars((Over(k) \/ w[k] = "call") /\ Dealloc(k, 1)) /\ WF_vars(WorkRel(k))
                     /\ WF_vars(FutConnect(k)) /\ WF_vars(FutStart(k)) /\ WF_vars(FutDone(k, "v", 1) \/ FutDone(k, "s", 0))
                     /\ WF_vars(~(fs[k] = "start") /\ FutDropCall(k)) /\ WF_vars(FutDropRet(k))
                     /\ WF_vars(~fsB[k] /\ FutStopRet(k, TRUE)) /\ WF_vars(LeafStop(k))
LiveSpec == Spec /\ Fair
JoinEnds == \A j \in Js : (js[j] = "reg") ~> (js[j] = "done")
(* the scope can be destroyed once a join is done *)
MayGo == \A j \in Js : js[j] = "done" => ENABLED Gone
=============================================================================
