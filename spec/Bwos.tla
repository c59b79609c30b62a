-------------------------------- MODULE Bwos ---------------------------------
(* The block-based work-stealing queue as its users see it (P18).

   The owner pushes and pops at the back; thieves take from the front of any
   block which the owner has left behind ("granted").  Blocks are numbered in
   the order of the owner's progress: the queue holds the blocks lo..cur, cur is
   the owner's.  Block b is stored in slot b % NB and has BS places; blk[b] is
   [h |-> places gone from the front, v |-> the elements behind them].  A block
   which the owner leaves is full: h + Len(v) = BS.  Going back to a block
   closes it to thieves.  A block is entered again only when the slot's former
   block has been emptied by thieves; push fails otherwise.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Thieves
VARIABLES lo, cur, blk, NB, BS,
          op,       \* the owner's operation: [k, vs (elements to be pushed), n (pushed), full, got]
          st,       \* thieves: 0 idle, [got |-> -1 pending, -2 may return nothing, v > 0]
          in, out   \* elements accepted, elements handed out
vars == <<lo, cur, blk, NB, BS, op, st, in, out>>

None == [k |-> "none", vs |-> <<>>, n |-> 0, full |-> FALSE, got |-> -1]
Empty == [h |-> 0, v |-> <<>>]
Init == /\ lo = 0 /\ cur = 0 /\ blk = (0 :> Empty)
        /\ op = None /\ st = [t \in Thieves |-> 0] /\ in = {} /\ out = {}

Front(s) == SubSeq(s, 1, Len(s) - 1)
Left == {b \in lo..(cur - 1) : blk[b].v # <<>>}     \* what thieves can take from
Full == blk[cur].h + Len(blk[cur].v) = BS

(* ---- the owner *)
\* while the owner operates, a thief may see a block in passing: it may give up
Disturb == st' = [t \in Thieves |-> IF st[t] = -1 THEN -2 ELSE st[t]]
PushCall(vs) ==
  /\ op.k = "none" /\ op' = [None EXCEPT !.k = "push", !.vs = vs]
  /\ Disturb /\ UNCHANGED <<lo, cur, blk, NB, BS, in, out>>
PushLin ==
  /\ op.k = "push" /\ ~op.full /\ op.vs # <<>> /\ ~Full
  /\ blk' = [blk EXCEPT ![cur].v = Append(@, Head(op.vs))]
  /\ in' = in \union {Head(op.vs)}
  /\ op' = [op EXCEPT !.vs = Tail(@), !.n = @ + 1]
  /\ UNCHANGED <<lo, cur, NB, BS, st, out>>
\* the slot of the next block: its former block, if the queue still holds that
Reuse == cur + 1 - NB
Writable == NB > 1 /\ (Reuse >= lo => blk[Reuse].v = <<>>)
Advance ==
  /\ op.k = "push" /\ ~op.full /\ op.vs # <<>> /\ Full /\ Writable
  /\ lo' = IF Reuse >= lo THEN Reuse + 1 ELSE lo
  /\ cur' = cur + 1
  /\ blk' = [b \in lo'..cur' |-> IF b = cur' THEN Empty ELSE blk[b]]
  /\ UNCHANGED <<NB, BS, op, st, in, out>>
PushFull(sure) ==   \* sure: the owner has synchronised with all thieves; else it may lag behind
  /\ op.k = "push" /\ ~op.full /\ op.vs # <<>> /\ Full
  /\ ~Writable \/ (~sure /\ Reuse >= lo)
  /\ op' = [op EXCEPT !.full = TRUE]
  /\ UNCHANGED <<lo, cur, blk, NB, BS, st, in, out>>
PushRet(k) ==
  /\ op.k = "push" /\ (op.vs = <<>> \/ op.full) /\ k = op.n
  /\ op' = None /\ UNCHANGED <<lo, cur, blk, NB, BS, st, in, out>>

PopCall ==
  /\ op.k = "none" /\ op' = [None EXCEPT !.k = "pop"]
  /\ Disturb /\ UNCHANGED <<lo, cur, blk, NB, BS, in, out>>
PopLin ==
  /\ op.k = "pop" /\ op.got = -1 /\ blk[cur].v # <<>>
  /\ op' = [op EXCEPT !.got = blk[cur].v[Len(blk[cur].v)]]
  /\ blk' = [blk EXCEPT ![cur].v = Front(@)]
  /\ out' = out \union {op'.got}
  /\ UNCHANGED <<lo, cur, NB, BS, st, in>>
Retreat ==
  /\ op.k = "pop" /\ op.got = -1 /\ blk[cur].v = <<>> /\ cur > lo
  /\ cur' = cur - 1
  /\ blk' = [b \in lo..cur' |-> blk[b]]
  /\ UNCHANGED <<lo, NB, BS, op, st, in, out>>
PopNone ==
  /\ op.k = "pop" /\ op.got = -1 /\ blk[cur].v = <<>> /\ cur = lo
  /\ op' = [op EXCEPT !.got = 0]
  /\ UNCHANGED <<lo, cur, blk, NB, BS, st, in, out>>
PopRet(v) ==
  /\ op.k = "pop" /\ op.got = v /\ v # -1
  /\ op' = None /\ UNCHANGED <<lo, cur, blk, NB, BS, st, in, out>>

(* ---- thieves *)
StealCall(t, sure) ==     \* sure: all that the owner has done happens before the call
  /\ st[t] = 0
  /\ st' = [st EXCEPT ![t] = IF sure /\ op.k = "none" THEN -1 ELSE -2]
  /\ UNCHANGED <<lo, cur, blk, NB, BS, op, in, out>>
StealLin(t) ==
  /\ st[t] \in {-1, -2}
  /\ \E b \in Left :
       /\ st' = [st EXCEPT ![t] = Head(blk[b].v)]
       /\ blk' = [blk EXCEPT ![b] = [h |-> @.h + 1, v |-> Tail(@.v)]]
       /\ out' = out \union {Head(blk[b].v)}
  /\ UNCHANGED <<lo, cur, NB, BS, op, in>>
\* at rest a thief returns empty-handed only if there was nothing to take
StealNone(t) ==
  /\ st[t] = -1 /\ Left = {}
  /\ st' = [st EXCEPT ![t] = -2]
  /\ UNCHANGED <<lo, cur, blk, NB, BS, op, in, out>>
StealRet(t, v) ==
  /\ IF v = 0 THEN st[t] = -2 ELSE v > 0 /\ st[t] = v
  /\ st' = [st EXCEPT ![t] = 0]
  /\ UNCHANGED <<lo, cur, blk, NB, BS, op, in, out>>

End ==
  /\ op.k = "none" /\ \A t \in Thieves : st[t] = 0
  /\ in = out
  /\ UNCHANGED vars

(* ---- invariants *)
Elems == UNION {{blk[b].v[i] : i \in 1..Len(blk[b].v)} : b \in lo..cur}
Conserved == in = out \union Elems /\ out \intersect Elems = {}
Shape == /\ lo <= cur /\ cur - lo < NB
         /\ \A b \in lo..cur : blk[b].h + Len(blk[b].v) <= BS
         /\ \A b \in lo..(cur - 1) : blk[b].h + Len(blk[b].v) = BS
\* elements are ordered: with numbered elements, the owner's is the youngest
Ordered == \A b \in lo..cur : \A i, j \in 1..Len(blk[b].v) : i < j => blk[b].v[i] < blk[b].v[j]
=============================================================================
