----------------------------- MODULE MCSenders -----------------------------
(* Model checking of Senders over a family of small trees: every history that the
   contract allows of every tree of the family, with a stop request at any point. *)
EXTENDS Senders
CONSTANTS Unary, Binary, Shapes

Nd(k, ch, p, q, r) == [k |-> k, ch |-> ch, p |-> p, q |-> q, r |-> r, m |-> 0]
LeafSet == {Nd("just", <<>>, 0, 0, 0), Nd("jerr", <<>>, 0, 0, 0), Nd("jstop", <<>>, 0, 0, 0),
            Nd("leaf", <<>>, 1, 0, 1), Nd("leaf", <<>>, 1, 2, 0), Nd("leaf", <<>>, -1, 3, 2)}
Params(k) == CASE k \in {"then", "ue", "us", "lv", "le", "ls"} -> {0, 1}
               [] k \in {"rn", "ru"} -> {2}
               [] OTHER -> {0}
Shift(n, d) == [n EXCEPT !.ch = [i \in 1..Len(n.ch) |-> n.ch[i] + d]]
Join(top, a, b) == <<top>> \o [i \in 1..Len(a) |-> Shift(a[i], 1)] \o [i \in 1..Len(b) |-> Shift(b[i], 1 + Len(a))]

L1 == {<<x>> : x \in LeafSet}
U(S) == UNION {{Join(Nd(k, <<2>>, p, 0, 1), a, <<>>) : p \in Params(k), a \in S} : k \in Unary}
B(S, T) == UNION {{Join(Nd(k, <<2, 2 + Len(a)>>, p, 0, 1), a, b) : p \in Params(k), a \in S, b \in T} : k \in Binary}
Trees == (IF "u" \in Shapes THEN U(L1) ELSE {}) \cup (IF "b" \in Shapes THEN B(L1, L1) ELSE {})
         \cup (IF "uu" \in Shapes THEN U(U(L1)) ELSE {}) \cup (IF "ub" \in Shapes THEN U(B(L1, L1)) ELSE {})
         \cup (IF "bu" \in Shapes THEN B(U(L1), L1) ELSE {}) \cup (IF "bb" \in Shapes THEN B(B(L1, L1), L1) ELSE {})

(* bulk and fork_join *)
BL(S) == {Join([k |-> k, ch |-> <<2>>, p |-> p, q |-> q, r |-> r, m |-> 0], a, <<>>) :
            k \in BulkKinds, p \in {0, 2, 3}, q \in {-1, 1}, r \in {0, 1}, a \in S}
FJ(S, T) == {<<Nd("fj", <<2, 2 + Len(a), 2 + Len(a) + Len(b)>>, 0, 0, 0)>> \o Tail(Join(Nd("id", <<>>, 0, 0, 0), a, b))
                \o [i \in 1..Len(c) |-> Shift(c[i], 1 + Len(a) + Len(b))] : a \in S, b \in T, c \in T}
LC == {<<Nd("cache", <<>>, 0, 0, 0)>>, <<Nd("leaf", <<>>, 1, 0, 1)>>, <<Nd("leaf", <<>>, -1, 3, 2)>>}
FTrees == (IF "bl" \in Shapes THEN BL({<<Nd("just", <<>>, 0, 0, 0)>>, <<Nd("leaf", <<>>, 1, 0, 1)>>, <<Nd("jexc", <<>>, 0, 0, 0)>>}) ELSE {}) \cup (IF "fj" \in Shapes THEN FJ(L1, LC) ELSE {})
          \cup (IF "bfj" \in Shapes THEN BL(FJ(L1, LC)) \cup FJ(BL(L1), LC) ELSE {})
          \cup (IF "fjq" \in Shapes THEN FJ({<<Nd("leaf", <<>>, 1, 0, 1)>>},
                                          {<<Nd("cache", <<>>, 0, 0, 0)>>, <<Nd("leaf", <<>>, -1, 3, 2)>>}) ELSE {})
          \cup (IF "fjt" \in Shapes THEN FJ(L1, LC \cup U(LC)) ELSE {})

(* coroutines: each way to go on, each depth, moves to another context, exit actions *)
TNd(k, ch, p, q, r, m) == [k |-> k, ch |-> ch, p |-> p, q |-> q, r |-> r, m |-> m]
TLeaf == {<<Nd("just", <<>>, 0, 0, 0)>>, <<Nd("jerr", <<>>, 0, 0, 0)>>, <<Nd("jstop", <<>>, 0, 0, 0)>>, <<Nd("leaf", <<>>, 1, 0, 1)>>}
T1(S) == {Join(TNd(k, <<2>>, p, q, 0, 0), a, <<>>) : k \in {"stask", "awt"}, p \in 0..4, q \in {0, 1}, a \in S}
         \cup {Join(TNd("etask", <<2>>, p, q, r, m), a, <<>>) :
                 p \in {0, 1, 2, 4}, q \in {0, 1}, r \in {0, 3, 13}, m \in {0, 1 + 4 * 3, 2 + 4 * (1 + 4 * 2)}, a \in S}
T2(S, T) == {Join(TNd(k, <<2, 2 + Len(a)>>, p, 0, 0, 0), a, b) : k \in {"stask2", "awt2"}, p \in {0, 2}, a \in S, b \in T}
         \cup {Join(TNd("etask2", <<2, 2 + Len(a)>>, p, 0, r, m), a, b) :
                 p \in {0, 2}, r \in {0, 6}, m \in {0, 3 + 4 * (4 * 1 + 16 * 2)}, a \in S, b \in T}
T1q == {Join(TNd(k, <<2>>, p, 1, 0, 0), a, <<>>) : k \in {"stask", "awt"}, p \in {0, 1, 2}, a \in TLeaf}
       \cup {Join(TNd("etask", <<2>>, p, 1, r, m), a, <<>>) :
               p \in {0, 1}, r \in {0, 3, 13}, m \in {2 + 4 * (1 + 4 * 2)}, a \in TLeaf}
AwLeaf == {<<Nd("awl", <<>>, p, q, r)>> : p \in {-1, 1}, q \in {0, 2, 3}, r \in {0, 1}}
Aw1(S) == {Join(TNd("awt", <<2>>, p, 1, 0, 0), a, <<>>) : p \in {0, 1, 2, 3, 4}, a \in S}
Aw2(S, T) == {Join(TNd("awt2", <<2, 2 + Len(a)>>, p, 0, 0, 0), a, b) : p \in {0, 2}, a \in S, b \in T}
TTrees == (IF "aw" \in Shapes THEN Aw1(AwLeaf) \cup {Join(Nd("then", <<2>>, 0, 0, 0), a, <<>>) : a \in AwLeaf} ELSE {})
          \cup (IF "aw2" \in Shapes THEN Aw2(AwLeaf, AwLeaf \cup TLeaf) \cup Aw1(Aw1(AwLeaf)) ELSE {})
          \cup (IF "t1q" \in Shapes THEN T1q ELSE {}) \cup (IF "t1" \in Shapes THEN T1(TLeaf) ELSE {}) \cup (IF "t2" \in Shapes THEN T2(TLeaf, TLeaf) ELSE {})
          \cup (IF "tt" \in Shapes THEN T1(T1(TLeaf)) ELSE {}) \cup (IF "t2t" \in Shapes THEN T2(T1(TLeaf), TLeaf) ELSE {})

Threads == 0..2
MCInit == \E tr \in Trees \cup FTrees \cup TTrees : InitWith(tr, FALSE, 1)

(* The driver: how an adaptor uses its children.  A lazy child is connected by its
   parent while that runs, when it is its turn; the others together with the parent. *)
Lazy(n) == ~IsRoot(n) /\ \/ K(Par(n)) \in LetKinds /\ Idx(n) = 2
                         \/ K(Par(n)) \in SeqKinds /\ Idx(n) > 1
                         \/ K(Par(n)) = "fin" /\ Idx(n) = 2
                         \/ K(Par(n)) \in RepKinds \cup TaskKinds
Running(n) == nd[n].st = "run"
RECURSIVE Ready(_)
Ready(n) == nd[n].st = "con" /\ \A c \in KidSet(n) : Lazy(c) \/ Ready(c)
(* is it the turn of child n of a running adaptor? *)
Turn(n) ==
  LET p == Par(n) IN
  /\ Running(p)
  /\ CASE K(p) \in LetKinds /\ Idx(n) = 2 -> nd[p].fnd /\ tree[p].p = 0 /\ ~nd[n].fin
       [] K(p) \in RepKinds -> nd[n].rnd = 0 \/ (nd[n].fin /\ nd[n].ch = "v" /\ nd[n].rnd < tree[p].p)
       [] K(p) \in TaskKinds -> NextKid(p, Idx(n)) /\ ~nd[n].fin
       [] K(p) = "fj" /\ Idx(n) > 1 -> nd[Kid(p, 1)].fin /\ ~nd[n].fin
       [] Idx(n) = 1 \/ ~Lazy(n) -> ~nd[n].fin
       [] OTHER -> /\ ~nd[n].fin
                   /\ nd[Kid(p, Idx(n) - 1)].fin
                   /\ K(p) = "fin" \/ nd[Kid(p, Idx(n) - 1)].ch = "v"
  /\ Lazy(n) \/ \A j \in 1..(Idx(n) - 1) : nd[Kid(p, j)].rnd > 0
  /\ K(p) = "usr" => ~nd[p].srs
Where(n) == IF IsRoot(n) THEN 0
            ELSE IF K(Par(n)) \in {"so", "on"} THEN tree[Par(n)].r
            ELSE IF K(Par(n)) \in TaskKinds THEN Cur(Par(n))
            ELSE IF K(Par(n)) = "fj" /\ Idx(n) > 1 THEN nd[Kid(Par(n), 1)].t
            ELSE IF Lazy(n) /\ nd[Kid(Par(n), 1)].t >= 0 THEN nd[Kid(Par(n), IF Idx(n) > 1 THEN Idx(n) - 1 ELSE 1)].t
            ELSE nd[Par(n)].stt

MCConnect(n) ==
  /\ IF IsRoot(n) THEN nd[n].rnd = 0
     ELSE IF Lazy(n) THEN Turn(n)
     ELSE nd[Par(n)].st = "con" /\ \A j \in 1..(Idx(n) - 1) : Ready(Kid(Par(n), j))
  /\ Connect(n)
MCStart(n) == /\ Ready(n) /\ (IF IsRoot(n) THEN TRUE ELSE Turn(n)) /\ Start(n, Where(n), May(n))
MCSchedDone(n, r) == \E c \in {"v", "s", "x"} : \E x \in Threads :
                       SchedDone(n, r, x, c, IF c = "x" THEN <<3000 + n>> ELSE <<>>, x)
MCDestroy(n) == /\ nd[n].st = "done" /\ (IF IsRoot(n) \/ Lazy(n) THEN TRUE ELSE nd[Par(n)].st = "no") /\ Destroy(n)
                \* or along with a parent which never started it
MCDrop(n) == nd[n].st = "con" /\ (IF IsRoot(n) THEN FALSE ELSE nd[Par(n)].st = "no") /\ Destroy(n)

(* a completion call returns at some time, but not before those it caused *)
Pending(n) == LET p == Par(n) IN
  /\ Running(p)
  /\ Outcomes(p, nd[n].t) # {} \/ (Idx(n) = 1 /\ Takes(p) /\ ~nd[p].fnd)
  \/ (K(p) \in BulkKinds /\ nd[n].ch = "v")
MCReturn(n) == (IF IsRoot(n) THEN TRUE ELSE ~Pending(n)) /\ nd[n].fin /\ ~nd[n].ret /\ nd[n].rnd > 0 /\ Return(n, nd[n].rnd)
Over == IF Len(tree) = 0 THEN FALSE ELSE nd[1].fin /\ nd[1].st = "no"

MCNext ==
  \/ \E n \in Nodes : MCConnect(n) \/ MCStart(n) \/ MCDestroy(n) \/ MCDrop(n) \/ MCReturn(n)
  \/ \E n \in Nodes, t \in Threads : \E m \in Nodes : CallFn(n, nd[m].v, t)
  \/ \E n \in Nodes, b \in 0..3 : \E e \in b..3 : IF K(n) \in BulkKinds
       THEN BulkCall(n, b, e, IF nd[n].bs = {} THEN C1(n).v ELSE nd[n].bv, C1(n).t) ELSE FALSE
  \/ \E n \in Nodes, r \in {0, 1}, x \in Threads, t \in Threads : SchedStart(n, r, x, t)
  \/ \E n \in Nodes, r \in {0, 1} : MCSchedDone(n, r)
  \/ \E n \in Nodes, t \in Threads : \E o \in Outcomes(n, t) : Complete(n, o[1], o[2], t, May(n))
  \/ \E n \in Nodes, i \in 0..2, t \in Threads : IF K(n) \in TaskKinds
       THEN LocBegin(n, i, t) \/ LocEnd(n, i, t) \/ ExitReg(n, i, t) \/ ExitRun(n, i, t) ELSE FALSE
  \/ StopBegin(0) \/ StopEnd(0)

(* When nothing can happen any more, the root has completed and all is destroyed. *)
Progress == (Quiet /\ nd[1].fin) \/ (\E n \in Nodes : K(n) = "un") \/ ENABLED MCNext
MustMay == \A n \in Nodes : Must(n) => May(n)
(* the outcome of when_all and when_any, stated without reference to how they work *)
Outcome == \A n \in Nodes : nd[n].fin =>
  CASE K(n) \in WhenAll ->
         /\ \A c \in KidSet(n) : nd[c].fin
         /\ nd[n].ch = "v" => \A c \in KidSet(n) : nd[c].ch = "v"
         /\ (\E c \in KidSet(n) : nd[c].ch \in {"e", "x"}) => nd[n].ch \in {"e", "x"}
    [] K(n) = "fj" ->
         /\ \A c \in KidSet(n) : nd[c].rnd > 0 => nd[c].fin
         /\ nd[n].ch = "v" => \A c \in Parts(n) : nd[c].ch = "v"
    [] K(n) \in BulkKinds ->
         /\ nd[n].ch = "v" => nd[n].bs = 0..(tree[n].p - 1) /\ C1(n).ch = "v" /\ ~nd[n].bx
         /\ C1(n).ch # "v" => nd[n].bs = {}
    [] K(n) \in WhenAny ->
         \A c \in KidSet(n) : nd[c].rnd > 0 => nd[c].fin
    [] K(n) \in SeqKinds \/ K(n) = "fin" -> nd[n].ch = "v" => \A c \in KidSet(n) : nd[c].fin /\ nd[c].ch = "v"
    [] K(n) \in TaskKinds ->
         /\ nd[n].ch = "v" => \A i \in 1..Len(Kids(n)) : KidDone(n, i)
         /\ nd[n].st = "done" => nd[n].lv = <<>> \/ (nd[n].ch = "s" /\ K(n) \notin STask)
         \* a task which has waited for something completes on its scheduler
         /\ K(n) \in Affine /\ nd[n].st = "done" /\ (\E c \in KidSet(n) : nd[c].fin) => nd[n].t = SchedEnv(n)
         \* and one which moved comes back, whatever happened after that
         /\ K(n) \in ETask /\ Moved(n) => nd[n].t = SchedEnv(n) /\ Home \notin {nd[n].xa[j] : j \in 1..Len(nd[n].xa)}
         /\ nd[n].bg => Due(n) = <<>>
    [] K(n) \in RepKinds -> nd[n].ch = "v" => nd[Kid(n, 1)].rnd >= tree[n].p
    [] OTHER -> TRUE
Spec == MCInit /\ [][MCNext]_vars
=============================================================================
