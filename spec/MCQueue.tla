------------------------------- MODULE MCQueue -------------------------------
EXTENDS Queue
CONSTANT Kind
-----------------------------------------------------------------------------
Used == UNION {SetOf(what[o]) : o \in Ops}
Next ==
  \/ \E o \in Ops, i \in Items \ Used, w \in BOOLEAN : (w => Kind # "one") /\ PushCall(o, <<i>>, w)
  \/ \E o \in Ops, i, j \in Items \ Used : Kind # "one" /\ i # j /\ PushCall(o, <<i, j>>, FALSE)
  \/ \E o \in Ops : PushLin(o, Kind) \/ PushFail(o) \/ PushRet(o, ~failed[o], empt[o])
  \/ TakeCall \/ (Kind = "one" /\ MarkIdle) \/ TakeLin(Kind) \/ TakeRet(got, FALSE)
Spec == Init /\ [][Next]_vars

NoDup == \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
NoLoss == \A o \in Ops : (op[o] \in {"lin", "ret"} /\ ~failed[o]) => SetOf(what[o]) \subseteq SetOf(out) \cup SetOf(items)
NothingElse == SetOf(out) \cup SetOf(items) \subseteq UNION {SetOf(what[o]) : o \in {p \in Ops : op[p] \in {"lin", "ret"} /\ ~failed[p]}}
(* an idle consumer with nothing to take is always told of the next push *)
Told == (con = "idle" /\ items = <<>> /\ Kind = "one") => stub
Fifo == [][\E s \in {items'} : (Len(items') < Len(items) => items' = SubSeq(items, Len(items) - Len(items') + 1, Len(items)))]_vars
=============================================================================
