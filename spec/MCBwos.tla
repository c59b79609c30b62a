------------------------------- MODULE MCBwos --------------------------------
(* The block-based work-stealing algorithm, one atomic access per step, run side
   by side with the specification Bwos: each linearisation point of the algorithm
   must be a step which Bwos allows and must have Bwos' result; otherwise err.
   (Sequentially consistent memory: the reads-from relation under weaker ordering
   is what the recorded executions of the implementation are checked for.)       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Thieves, NBlocks, BSize, MaxPush, MaxPop, MaxSteal
VARIABLES lo, cur, blk, NB, BS, op, st, in, out
S == INSTANCE Bwos
abs == <<lo, cur, blk, NB, BS, op, st, in, out>>
VARIABLES head, tail, scnt, stail,    \* per slot; head and stail are <<round, index>>
          ring, last, start,           \* last, start: <<round, slot>>
          pc, o,                       \* owner: where, locals
          tp, tl,                      \* thieves: where, locals
          np, no, ns, err
conc == <<head, tail, scnt, stail, ring, last, start>>
ctl == <<pc, o, tp, tl, np, no, ns>>
vars == <<abs, conc, ctl, err>>
Slots == 0..(NBlocks - 1)

Init ==
  /\ S!Init /\ NB = NBlocks /\ BS = BSize
  /\ head = [s \in Slots |-> IF s = 0 THEN <<0, 0>> ELSE <<-1, BSize>>]
  /\ tail = [s \in Slots |-> IF s = 0 THEN 0 ELSE BSize]
  /\ scnt = [s \in Slots |-> IF s = 0 THEN 0 ELSE BSize]
  /\ stail = [s \in Slots |-> IF s = 0 THEN <<0, BSize>> ELSE <<-1, BSize>>]
  /\ ring = [s \in Slots |-> [i \in 0..(BSize - 1) |-> 0]]
  /\ last = <<0, 0>> /\ start = <<0, 0>>
  /\ pc = "idle" /\ o = [v |-> 0, x |-> <<0, 0>>]
  /\ tp = [t \in Thieves |-> "idle"]
  /\ tl = [t \in Thieves |-> [b |-> <<0, 0>>, sp |-> <<0, 0>>]]
  /\ np = 0 /\ no = 0 /\ ns = [t \in Thieves |-> 0] /\ err = "ok"

\* a step of Bwos or, if it refuses, an error
Abs(A, name) == IF ENABLED A THEN A /\ err' = err ELSE UNCHANGED abs /\ err' = name
AbsSame == UNCHANGED <<abs, err>>
Inc(c) == IF c[2] = NBlocks - 1 THEN <<c[1] + 1, 0>> ELSE <<c[1], c[2] + 1>>
Dec(c) == IF c[2] = 0 THEN <<c[1] - 1, NBlocks - 1>> ELSE <<c[1], c[2] - 1>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
OKeep == UNCHANGED <<tp, tl, np, no, ns>>
Cur == last[2]

(* ---- owner: push *)
OPush ==
  /\ pc = "idle" /\ np < MaxPush
  /\ np' = np + 1 /\ o' = [o EXCEPT !.v = np + 1] /\ pc' = "put"
  /\ Abs(S!PushCall(<<np + 1>>), "push_call") /\ UNCHANGED <<conc, tp, tl, no, ns>>
OPut ==
  /\ pc = "put"
  /\ IF tail[Cur] < BSize
     THEN /\ ring' = [ring EXCEPT ![Cur][tail[Cur]] = o.v]
          /\ pc' = "put2" /\ UNCHANGED <<tail>>
     ELSE pc' = "wr" /\ UNCHANGED <<ring, tail>>
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, scnt, stail, last, start>>
OPut2 ==
  /\ pc = "put2"
  /\ tail' = [tail EXCEPT ![Cur] = @ + 1]
  /\ pc' = "pushed"
  /\ Abs(S!PushLin, "push_lin") /\ OKeep /\ UNCHANGED <<o, head, scnt, stail, ring, last, start>>
OPushed ==
  /\ pc = "pushed" /\ pc' = "idle"
  /\ Abs(S!PushRet(op.n), "push_ret") /\ OKeep /\ UNCHANGED <<o, conc>>
OWritable ==
  /\ pc = "wr"
  /\ LET nx == Inc(last) IN
     IF NBlocks > 1 /\ stail[nx[2]] = <<nx[1] - 1, BSize>>
     THEN pc' = "adv1" /\ AbsSame
     ELSE pc' = "pushed" /\ Abs(S!PushFull(TRUE), "full")
  /\ OKeep /\ UNCHANGED <<o, conc>>
OAdv1 ==   \* start moves on if its slot is about to be used again
  /\ pc = "adv1" /\ pc' = "gr1"
  /\ start' = IF Inc(last)[2] = start[2] THEN Inc(start) ELSE start
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, stail, ring, last>>
OGrant1 ==
  /\ pc = "gr1" /\ pc' = "gr2"
  /\ o' = [o EXCEPT !.x = head[Cur]]
  /\ head' = [head EXCEPT ![Cur] = stail[Cur]]
  /\ AbsSame /\ OKeep /\ UNCHANGED <<tail, scnt, stail, ring, last, start>>
OGrant2 ==
  /\ pc = "gr2" /\ pc' = "rec"
  /\ stail' = [stail EXCEPT ![Cur] = o.x]
  /\ Abs(S!Advance, "advance") /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, ring, last, start>>
ORec(s) == Inc(last)[2] = s
OReclaim ==   \* wait for the thieves which are still reading
  /\ pc = "rec"
  /\ LET nx == Inc(last) IN
     /\ scnt[nx[2]] = head[nx[2]][2]
     /\ head' = [head EXCEPT ![nx[2]] = <<nx[1], 0>>]
  /\ pc' = "rec2"
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, tail, scnt, stail, ring, last, start>>
ORec2 == /\ pc = "rec2" /\ pc' = "rec3" /\ tail' = [tail EXCEPT ![Inc(last)[2]] = 0]
         /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, scnt, stail, ring, last, start>>
ORec3 == /\ pc = "rec3" /\ pc' = "rec4" /\ stail' = [stail EXCEPT ![Inc(last)[2]] = <<Inc(last)[1], BSize>>]
         /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, ring, last, start>>
ORec4 == /\ pc = "rec4" /\ pc' = "rec5" /\ scnt' = [scnt EXCEPT ![Inc(last)[2]] = 0]
         /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, stail, ring, last, start>>
ORec5 == /\ pc = "rec5" /\ pc' = "put" /\ last' = Inc(last)
         /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, stail, ring, start>>
(* ---- owner: pop *)
OPop ==
  /\ pc = "idle" /\ no < MaxPop /\ no' = no + 1 /\ pc' = "get"
  /\ Abs(S!PopCall, "pop_call") /\ UNCHANGED <<conc, o, tp, tl, np, ns>>
OGet ==
  /\ pc = "get"
  /\ IF tail[Cur] = 0 \/ head[Cur][2] = tail[Cur]
     THEN /\ IF start = last THEN pc' = "popped" /\ o' = [o EXCEPT !.v = 0] /\ Abs(S!PopNone, "pop_none")
                             ELSE pc' = "ret1" /\ o' = o /\ AbsSame
          /\ UNCHANGED tail
     ELSE /\ o' = [o EXCEPT !.v = ring[Cur][tail[Cur] - 1]]
          /\ tail' = [tail EXCEPT ![Cur] = @ - 1]
          /\ pc' = "popped" /\ Abs(S!PopLin, "pop_lin")
  /\ OKeep /\ UNCHANGED <<head, scnt, stail, ring, last, start>>
OPopped ==
  /\ pc = "popped" /\ pc' = "idle"
  /\ Abs(S!PopRet(o.v), "pop_ret") /\ OKeep /\ UNCHANGED <<o, conc>>
ORet1 ==
  /\ pc = "ret1" /\ pc' = "ret2"
  /\ stail' = [stail EXCEPT ![Cur] = <<@[1] - 1, @[2]>>]
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, ring, last, start>>
ORet2 ==   \* takeover: from here on thieves find the block exhausted
  /\ pc = "ret2" /\ pc' = "ret3"
  /\ o' = [o EXCEPT !.x = stail[Dec(last)[2]]]
  /\ stail' = [stail EXCEPT ![Dec(last)[2]] = head[Dec(last)[2]]]
  /\ Abs(S!Retreat, "retreat") /\ OKeep /\ UNCHANGED <<head, tail, scnt, ring, last, start>>
ORet3 ==
  /\ pc = "ret3" /\ pc' = "ret4" /\ head' = [head EXCEPT ![Dec(last)[2]] = o.x]
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, tail, scnt, stail, ring, last, start>>
ORet4 ==
  /\ pc = "ret4" /\ pc' = "get" /\ last' = Dec(last)
  /\ AbsSame /\ OKeep /\ UNCHANGED <<o, head, tail, scnt, stail, ring, start>>
(* ---- thieves *)
TKeep == UNCHANGED <<pc, o, np, no>>
TCall(t) ==
  /\ tp[t] = "idle" /\ ns[t] < MaxSteal /\ ns' = [ns EXCEPT ![t] = @ + 1]
  /\ tp' = [tp EXCEPT ![t] = "st"]
  /\ tl' = [tl EXCEPT ![t].b = start]
  /\ Abs(S!StealCall(t, TRUE), "steal_call") /\ TKeep /\ UNCHANGED conc
TLook(t) ==
  /\ tp[t] = "st"
  /\ LET sp == stail[tl[t].b[2]] IN
     /\ tl' = [tl EXCEPT ![t].sp = sp]
     /\ tp' = [tp EXCEPT ![t] = IF sp[2] = BSize
                                THEN IF sp[1] = tl[t].b[1] THEN "next" ELSE "none"
                                ELSE "tail"]
  /\ AbsSame /\ TKeep /\ UNCHANGED <<conc, ns>>
TTail(t) ==
  /\ tp[t] = "tail"
  /\ tp' = [tp EXCEPT ![t] = IF tl[t].sp[2] = tail[tl[t].b[2]] THEN "none" ELSE "cas"]
  /\ AbsSame /\ TKeep /\ UNCHANGED <<conc, tl, ns>>
\* which block of Bwos is in slot s
BlockOf(s) == {b \in lo..(cur - 1) : b % NBlocks = s}
TCas(t) ==
  /\ tp[t] = "cas"
  /\ LET s == tl[t].b[2] IN
     IF stail[s] # tl[t].sp
     THEN tp' = [tp EXCEPT ![t] = "st"] /\ AbsSame /\ UNCHANGED <<stail>>
     ELSE /\ stail' = [stail EXCEPT ![s] = <<@[1], @[2] + 1>>]
          /\ tp' = [tp EXCEPT ![t] = "read"]
          /\ IF \E b \in BlockOf(s) : blk[b].v # <<>> /\ st[t] \in {-1, -2}
             THEN LET b == CHOOSE x \in BlockOf(s) : TRUE
                  IN /\ S!StealLin(t) /\ blk'[b] # blk[b] /\ err' = err
             ELSE UNCHANGED abs /\ err' = "steal"
  /\ TKeep /\ UNCHANGED <<head, tail, scnt, ring, last, start, tl, ns>>
TRead(t) ==
  /\ tp[t] = "read" /\ tp' = [tp EXCEPT ![t] = "cnt"]
  /\ err' = IF ring[tl[t].b[2]][tl[t].sp[2]] = st[t] THEN err ELSE "stolen value"
  /\ UNCHANGED abs /\ TKeep /\ UNCHANGED <<conc, tl, ns>>
TCount(t) ==
  /\ tp[t] = "cnt" /\ tp' = [tp EXCEPT ![t] = "idle"]
  /\ scnt' = [scnt EXCEPT ![tl[t].b[2]] = @ + 1]
  /\ Abs(S!StealRet(t, st[t]), "steal_ret")
  /\ TKeep /\ UNCHANGED <<head, tail, stail, ring, last, start, tl, ns>>
TNext(t) ==
  /\ tp[t] = "next"
  /\ tl' = [tl EXCEPT ![t].b = Inc(@)]
  /\ tp' = [tp EXCEPT ![t] = IF Less(Inc(tl[t].b), last) THEN "st" ELSE "none"]
  /\ AbsSame /\ TKeep /\ UNCHANGED <<conc, ns>>
TNone(t) ==
  /\ tp[t] = "none" /\ tp' = [tp EXCEPT ![t] = "none2"]
  /\ IF st[t] = -2 THEN AbsSame ELSE Abs(S!StealNone(t), "steal_none")
  /\ TKeep /\ UNCHANGED <<conc, tl, ns>>
TNone2(t) ==
  /\ tp[t] = "none2" /\ tp' = [tp EXCEPT ![t] = "idle"]
  /\ Abs(S!StealRet(t, 0), "steal_ret0")
  /\ TKeep /\ UNCHANGED <<conc, tl, ns>>
Owner == OPush \/ OPut \/ OPut2 \/ OPushed \/ OWritable \/ OAdv1 \/ OGrant1 \/ OGrant2 \/ OReclaim
         \/ ORec2 \/ ORec3 \/ ORec4 \/ ORec5 \/ OPop \/ OGet \/ OPopped \/ ORet1 \/ ORet2 \/ ORet3 \/ ORet4
Thief(t) == TCall(t) \/ TLook(t) \/ TTail(t) \/ TCas(t) \/ TRead(t) \/ TCount(t) \/ TNext(t) \/ TNone(t) \/ TNone2(t)
Done == /\ pc = "idle" /\ np = MaxPush /\ no = MaxPop
        /\ \A t \in Thieves : tp[t] = "idle" /\ ns[t] = MaxSteal
        /\ UNCHANGED vars
Next == Owner \/ (\E t \in Thieves : Thief(t)) \/ Done
Spec == Init /\ [][Next]_vars
Inv == err = "ok" /\ S!Conserved /\ S!Shape /\ S!Ordered
=============================================================================
