-------------------------------- MODULE Queue --------------------------------
(* The intrusive multi-producer single-consumer queues.  `items` is oldest
   first.  Kinds of take: "one" (mpsc pop_front), "old" (all, oldest first),
   "new" (all, newest first).                                                 *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Ops, Items
\* Ops: push operations; each pushes a sequence of items (newest first) at once

VARIABLES items,   \* linked items, oldest first
          op,      \* per push: idle pend lin ret
          what,    \* per push: the items, oldest first
          weak,    \* per push: a single attempt which may fail
          empt,    \* per push: the queue was empty when it took effect
          failed,  \* per push
          dirty,   \* per push: something else took effect while it was pending
          con,     \* consumer: "idle" "pend" "lin"
          got,     \* what the consumer's take found, oldest first
          out,     \* history: everything handed out
          stub,    \* "one": the queue is marked idle, the next push is told so
          may      \* "one": the take in progress may mark the queue idle
vars == <<items, op, what, weak, empt, failed, dirty, con, got, out, stub, may>>

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
SetOf(s) == {s[k] : k \in 1..Len(s)}

Init ==
  /\ items = <<>> /\ op = [o \in Ops |-> "idle"] /\ what = [o \in Ops |-> <<>>]
  /\ weak = [o \in Ops |-> FALSE] /\ empt = [o \in Ops |-> FALSE] /\ failed = [o \in Ops |-> FALSE]
  /\ dirty = [o \in Ops |-> FALSE] /\ con = "idle" /\ got = <<>> /\ out = <<>> /\ stub = TRUE /\ may = FALSE

PushCall(o, is, w) ==
  /\ op[o] = "idle" /\ op' = [op EXCEPT ![o] = "pend"]
  /\ what' = [what EXCEPT ![o] = is] /\ weak' = [weak EXCEPT ![o] = w]
  /\ UNCHANGED <<items, empt, failed, dirty, con, got, out, stub, may>>
Taint(o) == dirty' = [p \in Ops |-> dirty[p] \/ (p # o /\ op[p] = "pend")]
PushLin(o, kind) ==
  /\ op[o] = "pend" /\ op' = [op EXCEPT ![o] = "lin"]
  /\ empt' = [empt EXCEPT ![o] = IF kind = "one" THEN stub ELSE items = <<>>]
  /\ stub' = FALSE /\ may' = may
  /\ items' = items \o what[o]
  /\ Taint(o)
  /\ UNCHANGED <<what, weak, failed, con, got, out>>
(* a single-attempt push may fail only because of a concurrent operation *)
PushFail(o) ==
  /\ op[o] = "pend" /\ weak[o] /\ dirty[o]
  /\ op' = [op EXCEPT ![o] = "lin"] /\ failed' = [failed EXCEPT ![o] = TRUE]
  /\ UNCHANGED <<items, what, weak, empt, dirty, con, got, out, stub, may>>
(* a push is told exactly whether it found the queue empty (mpsc: marked idle) *)
PushRet(o, ok, b) ==
  /\ op[o] = "lin" /\ ok = ~failed[o]
  /\ ok => b = empt[o]
  /\ op' = [op EXCEPT ![o] = "ret"]
  /\ UNCHANGED <<items, what, weak, empt, failed, dirty, con, got, out, stub, may>>

TakeCall ==
  /\ con = "idle" /\ con' = "pend" /\ may' = (Len(items) <= 1)
  /\ UNCHANGED <<items, op, what, weak, empt, failed, dirty, got, out, stub>>
(* mpsc: while taking what was the last item the consumer marks the queue idle;
   pushes in between may already have added items again                        *)
MarkIdle ==
  /\ con = "pend" /\ may /\ items # <<>> /\ stub' = TRUE /\ may' = FALSE
  /\ UNCHANGED <<items, op, what, weak, empt, failed, dirty, con, got, out>>
TakeLin(kind) ==
  /\ con = "pend" /\ con' = "lin"
  /\ \/ /\ items # <<>>
        /\ (kind = "one" /\ Len(items) = 1) => stub
        /\ IF kind = "one"
             THEN got' = <<Head(items)>> /\ items' = Tail(items)
             ELSE got' = items /\ items' = <<>>
        /\ out' = out \o got'
        /\ Taint(0)
     \/ /\ \/ items = <<>>
           \/ kind = "one" /\ \E o \in Ops : op[o] = "lin"   \* a push is half way through
        /\ got' = <<>> /\ UNCHANGED <<items, out, dirty>>
  /\ UNCHANGED <<op, what, weak, empt, failed, stub, may>>
TakeRet(is, newest) ==
  /\ con = "lin" /\ is = (IF newest THEN Rev(got) ELSE got) /\ con' = "idle"
  /\ UNCHANGED <<items, op, what, weak, empt, failed, dirty, got, out, stub, may>>
(* the consumer waits for an item; it is the only one which removes any *)
WaitRet == items # <<>> /\ UNCHANGED vars
Query(b) == b = (items = <<>>) /\ UNCHANGED vars
=============================================================================
