------------------------------ MODULE MCShared ------------------------------
EXTENDS Shared
CONSTANT Kinds
Env ==
  \/ \E x \in Kinds : MkCall(x)
  \/ \E h \in Hs : (h # 1 /\ Copy(h)) \/ HConnect(h) \/ HStart(h) \/ HDropCall(h) \/ (~fsA[h] /\ HStopCall(h))
Impl ==
  \/ (w = "idle" /\ Alloc(1)) \/ Connect \/ MkRet(1) \/ MkThrow \/ LeafStart \/ (~rdy /\ w = "run" /\ LeafReady) \/ LeafUnready \/ LeafStop
  \/ LeafDone("v", 1) \/ LeafDone("s", 0) \/ LeafDes \/ Dealloc(1)
  \/ \E h \in Hs : HDone(h, "v", 1) \/ HDone(h, "s", 0) \/ HDropRet(h)
Spec == Init /\ [][Env \/ Impl]_vars
Fair ==
  /\ WF_vars(LeafStart) /\ WF_vars(LeafDone("v", 1)) /\ WF_vars(LeafDes) /\ WF_vars(Dealloc(1)) /\ WF_vars(MkRet(1))
  /\ \A h \in Hs : WF_vars(HDone(h, "v", 1) \/ HDone(h, "s", 0)) /\ WF_vars(HDropCall(h)) /\ WF_vars(HDropRet(h)) /\ WF_vars(LeafStop)
LiveSpec == Spec /\ Fair
Served == \A h \in Hs : (hs[h] = "start") ~> (hs[h] # "start")
Freed == (mk = "ret") ~> (mem = 0)
=============================================================================
