------------------------------ MODULE Senders ------------------------------
(* The contract of sender expressions.  A tree of nodes, each a factory, an adaptor
   or a scheduling operation; every node is connected, started, completes on one
   channel and is destroyed.  What a node may do next is a function of the history of
   its children (and of stop requests); where the contract leaves a choice open (which
   of two racing children counts as first, whether a racing stop request is noticed)
   the specification is nondeterministic.
   Channels: "v" value, "e" error, "x" exception, "s" stopped.
   Threads: contexts 0..C are threads 0..C (0 is where the root is started).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES tree,  \* sequence of [k, ch, p, q, r, m]
          nd,    \* per node: see Fresh
          stp,   \* stop sources: 0 the root receiver's, 1 the extra one of "sw"
          pre,   \* stop was requested before the start
          reps   \* how often the root is connected
vars == <<tree, nd, stp, pre, reps>>

Fresh == [st |-> "no",       \* "no" "con" "run" "done"
          fin |-> FALSE,     \* has completed (survives destruction)
          ret |-> FALSE,     \* the completion call has returned
          ch |-> "", v |-> <<>>, t |-> -1,     \* the completion and its thread
          stt |-> -1, srs |-> FALSE,           \* thread of start; stop requested then?
          fnd |-> FALSE, fnv |-> <<>>,         \* function called; with what
          bs |-> {}, bv |-> <<>>, bx |-> FALSE, \* bulk: indices called; value by now; thrown
          s0 |-> "no", s1 |-> "no", sv |-> <<>>, st0 |-> -1, \* scheduling operations
          rnd |-> 0,         \* number of starts
          rb |-> 0,          \* that number when its parent was connected
          thr |-> 0,         \* connecting it threw this
          lv |-> <<>>,       \* tasks: coroutines on the stack which have a live local
          bg |-> FALSE,      \* the innermost body has begun
          xa |-> <<>>,       \* registered exit actions; Home: going back to the scheduler
          hp |-> 0,          \* hops since the last child completed
          hs |-> 0,          \* a hop was stopped: 1 in the innermost body, 2 in an outer one
          ct |-> -1,         \* thread of the body
          cand |-> {}]       \* children which may count as the first

N == Len(tree)
Nodes == 1..N
K(n) == tree[n].k
Kids(n) == tree[n].ch
KidSet(n) == {Kids(n)[i] : i \in 1..Len(Kids(n))}
IsRoot(n) == \A m \in Nodes : n \notin KidSet(m)
Par(n) == CHOOSE m \in Nodes : n \in KidSet(m)
Kid(n, i) == Kids(n)[i]
Idx(n) == CHOOSE i \in 1..Len(Kids(Par(n))) : Kid(Par(n), i) = n
RECURSIVE Desc(_)
Desc(n) == {n} \cup UNION {Desc(c) : c \in KidSet(n)}

Rounds(c) == nd[c].rnd - nd[c].rb  \* starts during its parent's present life

Cap(s) == IF Len(s) > 12 THEN SubSeq(s, Len(s) - 11, Len(s)) ELSE s
RECURSIVE CatAll(_, _)
CatAll(ks, acc) == IF ks = <<>> THEN acc ELSE CatAll(Tail(ks), Cap(acc \o nd[Head(ks)].v))

LetKinds == {"lv", "le", "ls", "lets"}
WhenAll == {"wa2", "wa3", "wav", "twa"}
WhenAny == {"any2", "any3"}
SeqKinds == {"seq2", "seq3"}
RepKinds == {"rn", "ru", "reu"}
Leaves == {"just", "just3", "just0", "jerr", "jexc", "jstop", "sched", "rtag", "rsched",
           "leaf", "ref", "tcon", "jfrom", "jefrom", "cache", "asched", "awl"}
(* Coroutines.  The body awaits the children in turn.  p: how it goes on (0: appends its
   number to the values of the children, 1: throws after them, 2: catches the error of a
   child and appends its code, 3: fails after them by awaiting an error, 4: stops after
   them); q: is awaited by q coroutines one within the other.
   stask, stt: stdexec::task, of which stask has an environment of its own; etask:
   exec::task; awt: any coroutine type which is not affine to a scheduler. *)
STask == {"stask", "stask2", "stt", "stt2"}
ETask == {"etask", "etask2"}
Affine == STask \cup ETask
TaskKinds == Affine \cup {"awt", "awt2"}
Home == 9
BulkKinds == {"bulk", "bulkc", "bulku"}
(* the children which n runs concurrently *)
Parts(n) == IF K(n) = "fj" THEN {Kids(n)[i] : i \in 2..Len(Kids(n))} ELSE KidSet(n)
PartSeq(n) == IF K(n) = "fj" THEN Tail(Kids(n)) ELSE Kids(n)

-----------------------------------------------------------------------------
(* Environments *)
RECURSIVE Tag(_, _)
Tag(n, i) == IF IsRoot(n) THEN 100 * (i + 1)
             ELSE IF K(Par(n)) = "we" /\ tree[Par(n)].p = i THEN tree[Par(n)].q
             ELSE IF K(Par(n)) \in Affine /\ (i = 1 \/ K(Par(n)) \notin {"stask", "stask2"}) THEN -1
             ELSE Tag(Par(n), i)

(* An exec::task may go to another context before its first (r = 1..3) or its second
   child (r = 4..6); its scheduler fails if r > 10. *)
Target(n) == ((tree[n].r % 10) - 1) % 3
MovesBefore(n, i) == LET rr == tree[n].r % 10 IN (rr \in 1..3) \/ (rr >= 4 /\ i > 1)
RECURSIVE SchedEnv(_)
SchedEnv(n) == IF IsRoot(n) THEN 0
               ELSE IF K(Par(n)) \in {"so", "on"} THEN tree[Par(n)].r
               ELSE IF K(Par(n)) \in ETask /\ MovesBefore(Par(n), Idx(n)) THEN Target(Par(n))
               ELSE SchedEnv(Par(n))

RECURSIVE StopPossible(_)
StopPossible(n) == IF IsRoot(n) THEN TRUE
                   ELSE IF K(Par(n)) = "un" THEN FALSE
                   ELSE IF K(Par(n)) \in WhenAll \cup WhenAny \cup {"sw"} THEN TRUE
                   ELSE IF K(Par(n)) = "fj" /\ Idx(n) > 1 THEN TRUE
                   ELSE StopPossible(Par(n))

Sibs(n) == KidSet(Par(n)) \ {n}
Failed(c) == nd[c].fin /\ nd[c].ch # "v"

(* The stop token seen by node n may / must report a request *)
RECURSIVE May(_)
May(n) ==
  IF IsRoot(n) THEN stp[0] >= 1
  ELSE LET p == Par(n) IN
    CASE K(p) = "un" -> FALSE
      [] K(p) = "sw" -> stp[1] >= 1 \/ May(p)
      [] K(p) \in WhenAll \/ (K(p) = "fj" /\ Idx(n) > 1) -> (\E c \in Parts(p) : Failed(c)) \/ May(p)
      [] K(p) \in WhenAny -> (\E c \in KidSet(p) : nd[c].fin) \/ May(p)
      [] OTHER -> May(p)

RECURSIVE Must(_)
Must(n) ==
  IF IsRoot(n) THEN stp[0] = 2
  ELSE LET p == Par(n) IN
    CASE K(p) = "un" -> FALSE
      [] K(p) = "sw" -> \/ stp[1] = 2 /\ ~(May(p) /\ ~Must(p))
                        \/ Must(p) /\ stp[1] # 1
      [] K(p) \in WhenAll \/ (K(p) = "fj" /\ Idx(n) > 1) ->
           LET fl == {c \in Parts(p) : Failed(c)} IN
             /\ \A c \in fl : nd[c].ret
             /\ fl # {} \/ Must(p)
             /\ ~(May(p) /\ ~Must(p))   \* else a request from outside may be under way
      [] K(p) \in WhenAny ->
           LET fl == {c \in KidSet(p) : nd[c].fin} IN
             /\ \A c \in fl : nd[c].ret
             /\ fl # {} \/ Must(p)
             /\ ~(May(p) /\ ~Must(p))
      [] OTHER -> Must(p)

(* A token fused from two is sampled in two steps. *)
Fused(n) == ~IsRoot(n) /\ K(Par(n)) = "sw" /\ ~pre
SeenOK(n, sr) == /\ sr => May(n)
                 /\ (~sr /\ ~Fused(n)) => ~Must(n)

-----------------------------------------------------------------------------
(* What a node may do, given its children *)
RECURSIVE LetAnc(_)
LetAnc(n) == IF IsRoot(n) THEN 0
             ELSE IF K(Par(n)) \in LetKinds /\ Idx(n) = 2 THEN Par(n)
             ELSE LetAnc(Par(n))

RECURSIVE CacheAnc(_)
CacheAnc(n) == IF K(Par(n)) = "fj" /\ Idx(n) > 1 THEN Par(n) ELSE CacheAnc(Par(n))

ThrownKid(n) == {c \in KidSet(n) : nd[c].thr # 0}
C1(n) == nd[Kid(n, 1)]
Res(c) == <<nd[c].ch, nd[c].v>>
Code(n) == 1000 + n

(* arguments for which the function of an adaptor is called *)
FnDue(n, v) ==
  CASE K(n) = "then" -> C1(n).fin /\ C1(n).ch = "v" /\ v = C1(n).v
    [] K(n) = "ue" -> C1(n).fin /\ C1(n).ch \in {"e", "x"} /\ v = C1(n).v
    [] K(n) = "us" -> C1(n).fin /\ C1(n).ch = "s" /\ v = <<>>
    [] K(n) = "lv" -> C1(n).fin /\ C1(n).ch = "v" /\ v = C1(n).v
    [] K(n) = "lets" -> C1(n).fin /\ C1(n).ch = "v" /\ v = Cap(Cap(C1(n).v) \o <<7>>)
    [] K(n) = "le" -> C1(n).fin /\ C1(n).ch \in {"e", "x"} /\ v = C1(n).v
    [] K(n) = "ls" -> C1(n).fin /\ C1(n).ch = "s" /\ v = <<>>
    [] K(n) = "on3" -> nd[n].s0 = "v" /\ C1(n).ch = "v" /\ v = C1(n).v
    [] OTHER -> FALSE
FnThread(n) == IF K(n) = "on3" THEN tree[n].r ELSE C1(n).t

(* is the completion of the first child one for which n's function is called? *)
Takes(n) == CASE K(n) \in {"then", "lv", "lets", "on3"} -> C1(n).ch = "v"
              [] K(n) \in {"ue", "le"} -> C1(n).ch \in {"e", "x"}
              [] K(n) \in {"us", "ls"} -> C1(n).ch = "s"
              [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Coroutines *)
KidDone(n, i) == nd[Kid(n, i)].fin \/ nd[Kid(n, i)].thr # 0
NDone(n) == Cardinality({i \in 1..Len(Kids(n)) : KidDone(n, i)})
LastFin(n) == NDone(n) > 0 /\ nd[Kid(n, NDone(n))].fin
(* the error which a co_await reports, as a number *)
Await(c) == IF nd[c].thr # 0 THEN nd[c].thr ELSE IF nd[c].ch = "e" THEN 50000 + nd[c].v[1] ELSE nd[c].v[1]
KidFails(c) == nd[c].thr # 0 \/ nd[c].ch \in {"e", "x"}
Ends(n, i) == KidDone(n, i) /\ (nd[Kid(n, i)].ch = "s" \/ (KidFails(Kid(n, i)) /\ tree[n].p # 2))
Moved(n) == nd[n].s0 # "no"
(* the hop after a child is over *)
Settled(n) == /\ nd[n].s0 # "run" /\ nd[n].s1 # "run"
              /\ K(n) \in Affine /\ LastFin(n) => nd[n].hp > 0
(* the innermost body has nothing more to await *)
BodyOver(n) == /\ nd[n].bg /\ Settled(n)
               /\ \/ nd[n].hs > 0 \/ nd[n].s0 = "x"
                  \/ NDone(n) = Len(Kids(n)) \/ \E i \in 1..Len(Kids(n)) : Ends(n, i)
RECURSIVE Gather(_, _)
Gather(n, i) == IF i = 0 THEN <<>>
                ELSE LET c == Kid(n, i) IN
                     Cap(Gather(n, i - 1) \o (IF KidFails(c) THEN <<Await(c)>> ELSE nd[c].v))
BodyRes(n) ==
  LET en == {i \in 1..Len(Kids(n)) : Ends(n, i)} IN
  CASE nd[n].hs = 1 -> <<"s", <<>>>>
    [] nd[n].s0 = "x" -> <<"x", nd[n].sv>>
    [] en # {} -> LET c == Kid(n, CHOOSE i \in en : TRUE) IN
                  IF nd[c].ch = "s" THEN <<"s", <<>>>> ELSE <<"x", <<Await(c)>>>>
    [] tree[n].p = 1 -> <<"x", <<Code(n)>>>>
    [] tree[n].p = 3 -> <<"x", <<54000 + n>>>>
    [] tree[n].p = 4 -> <<"s", <<>>>>
    [] OTHER -> <<"v", Cap(Gather(n, Len(Kids(n))) \o <<n>>)>>
TaskRes(n) == IF nd[n].hs > 0 THEN <<"s", <<>>>> ELSE BodyRes(n)
(* the frames of these are destroyed with the operation when it is stopped *)
Keeps(n) == K(n) \notin STask /\ TaskRes(n)[1] = "s"
Cur(n) == IF K(n) \notin Affine /\ \E i \in 1..Len(Kids(n)) : nd[Kid(n, i)].fin
            THEN LET f == {i \in 1..Len(Kids(n)) : nd[Kid(n, i)].fin}
                 IN nd[Kid(n, CHOOSE i \in f : \A j \in f : j <= i)].t
            ELSE nd[n].ct
(* exit actions: m % 4 of them, kinds (0: always, 1: after success, 2: when stopped,
   3: after failure) in the digits of m \div 4 *)
ExitKind(n, i) == (tree[n].m \div (4 * (4 ^ i))) % 4
Applies(n, i) == \/ i = Home \/ ExitKind(n, i) = 0
                 \/ BodyRes(n)[1] = (CASE ExitKind(n, i) = 1 -> "v" [] ExitKind(n, i) = 2 -> "s" [] OTHER -> "x")
Due(n) == SelectSeq(nd[n].xa, LAMBDA i : Applies(n, i))
(* the body is over, and its locals are gone unless they stay *)
Exiting(n) == BodyOver(n) /\ (IF BodyRes(n)[1] = "s" /\ K(n) \notin STask
                                 THEN nd[n].hs = 2 \/ 0 \in {nd[n].lv[j] : j \in 1..Len(nd[n].lv)}
                                 ELSE 0 \notin {nd[n].lv[j] : j \in 1..Len(nd[n].lv)})
NextKid(n, i) == /\ nd[n].bg /\ Settled(n) /\ ~BodyOver(n)
                 /\ NDone(n) = i - 1
                 /\ K(n) \in ETask /\ tree[n].r # 0 /\ MovesBefore(n, i) => nd[n].s0 = "v"
(* one hop after a child; another one after what the body awaits to fail or stop *)
Extra(n) == nd[n].hp = 0 \/ (nd[n].hp = 1 /\ tree[n].p \in {3, 4})
TaskHopOK(n, r, x, t) ==
  /\ nd[n].bg /\ K(n) \in Affine
  /\ nd[n].s0 # "run" /\ nd[n].s1 # "run"
  /\ t = IF LastFin(n) /\ nd[n].hp = 0 THEN nd[Kid(n, NDone(n))].t ELSE nd[n].ct
  /\ IF r = 0
       THEN /\ K(n) \in ETask /\ tree[n].r # 0 /\ x = Target(n)
            /\ IF ~Moved(n) THEN \E i \in 1..Len(Kids(n)) :
                                   /\ NDone(n) = i - 1 /\ Settled(n) /\ ~BodyOver(n)
                                   /\ MovesBefore(n, i) /\ nd[Kid(n, i)].rnd = nd[Kid(n, i)].rb
               ELSE /\ Home \in {nd[n].xa[j] : j \in 1..Len(nd[n].xa)}
                    /\ LastFin(n) /\ Extra(n)
       ELSE /\ x = SchedEnv(n)
            /\ \/ ~Moved(n) /\ LastFin(n) /\ Extra(n)
               \/ Exiting(n) /\ Due(n) # <<>> /\ Due(n)[Len(Due(n))] = Home
               \/ Exiting(n) /\ Due(n) = <<>> /\ nd[n].hp <= tree[n].q + 2 /\ nd[n].hs < 2
TaskHopDoneOK(n, r, x, c, v, t) ==
  /\ t = x
  /\ x = IF r = 0 THEN Target(n) ELSE SchedEnv(n)
  /\ CASE c = "v" -> v = <<>> /\ ~(r = 0 /\ tree[n].r > 10)
       [] c = "x" -> r = 0 /\ tree[n].r > 10 /\ v = <<3000 + n>>
       [] c = "s" -> v = <<>> /\ K(n) \in ETask /\ May(n)
                     /\ ~(r = 1 /\ Moved(n) /\ Home \in {nd[n].xa[j] : j \in 1..Len(nd[n].xa)})
       [] OTHER -> FALSE

(* may child c of n be connected / started now? *)
ConnectOK(n, c) ==
  LET i == Idx(c) IN
  /\ K(n) \in LetKinds /\ i = 2 => nd[n].fnd /\ tree[n].p # 1
  /\ K(n) = "vsd" => i = tree[n].p + 1
  /\ K(n) = "fun" => tree[n].p # 1
  /\ K(n) \in TaskKinds => NextKid(n, i)

StartOK(n, c, t) ==
  LET i == Idx(c) IN
  CASE K(n) \in LetKinds -> i = 1 \/ (C1(n).fin /\ t = C1(n).t)
    [] K(n) \in SeqKinds -> \A j \in 1..(i - 1) : nd[Kid(n, j)].fin /\ nd[Kid(n, j)].ch = "v"
    [] K(n) = "fin" -> i = 1 \/ C1(n).fin
    [] K(n) = "fj" -> i = 1 \/ (C1(n).fin /\ t = C1(n).t)
    [] K(n) \in {"so", "on"} -> nd[n].s0 = "v" /\ t = tree[n].r
    [] K(n) = "rn" -> Rounds(c) < tree[n].p
    [] K(n) \in {"ru", "reu"} -> Rounds(c) < tree[n].p
    [] K(n) = "usr" -> ~nd[n].srs
    [] K(n) \in TaskKinds -> NextKid(n, i) /\ t = Cur(n)
    [] OTHER -> TRUE

(* scheduling operation number r of node n may be started on context x *)
SchedStartOK(n, r, x, t) ==
  CASE K(n) \in {"co", "coN"} -> r = 0 /\ x = tree[n].r /\ C1(n).fin /\ t = C1(n).t
    [] K(n) = "twa" -> r = 0 /\ x = tree[n].r /\ \A c \in KidSet(n) : nd[c].fin
    [] K(n) \in {"sched", "asched"} -> r = 0 /\ x = tree[n].p
    [] K(n) = "so" -> r = 0 /\ x = tree[n].r
    [] K(n) = "on" -> \/ r = 0 /\ x = tree[n].r
                      \/ r = 1 /\ x = SchedEnv(n) /\ (C1(n).fin \/ C1(n).thr # 0 \/ nd[n].s0 \in {"s", "e"})
    [] K(n) = "on3" -> \/ r = 0 /\ x = tree[n].r /\ C1(n).fin
                       \/ r = 1 /\ x = 0 /\ nd[n].s0 \in {"v", "s", "e"}
                          /\ (nd[n].s0 = "v" /\ Takes(n) => nd[n].fnd)
    [] K(n) \in TaskKinds -> TaskHopOK(n, r, x, t)
    [] OTHER -> FALSE
Beh(n, r) == IF r = 1 THEN 0 ELSE IF K(n) = "coN" THEN 2 ELSE tree[n].q
SchedDoneOK(n, r, x, c, v, t) ==
  IF K(n) \in TaskKinds THEN TaskHopDoneOK(n, r, x, c, v, t) ELSE
  /\ t = x
  /\ CASE Beh(n, r) = 1 -> c = "e" /\ v = <<3000 + n>>
       [] Beh(n, r) = 2 -> c = "v" /\ v = <<>>
       [] OTHER -> v = <<>> /\ (c = "v" \/ c = "s") /\ SeenOK(n, c = "s")

(* the inner result of on / on3 / twa, before the last hop *)
WAErr(n) == {c \in Parts(n) : nd[c].ch \in {"e", "x"}}
WARes(n) ==
  IF WAErr(n) # {} THEN {Res(c) : c \in nd[n].cand}
  ELSE IF \E c \in Parts(n) : nd[c].ch = "s" THEN {<<"s", <<>>>>}
  ELSE (IF nd[n].srs THEN {} ELSE {<<"v", CatAll(PartSeq(n), <<>>)>>})
       \cup (IF May(n) THEN {<<"s", <<>>>>} ELSE {})
FnRes(n, ok) == IF tree[n].p = 1 THEN <<"x", <<Code(n)>>>> ELSE ok

Inner(n) ==
  CASE K(n) \in {"co", "coN"} -> {Res(Kid(n, 1))}
    [] K(n) = "twa" -> WARes(n)
    [] K(n) = "on" -> IF C1(n).thr # 0 THEN {<<"x", <<C1(n).thr>>>>}
                      ELSE IF nd[n].s0 = "v" THEN {Res(Kid(n, 1))} ELSE {<<nd[n].s0, nd[n].sv>>}
    [] K(n) = "on3" -> IF nd[n].s0 # "v" THEN {<<nd[n].s0, nd[n].sv>>}
                       ELSE IF Takes(n) THEN {FnRes(n, <<"v", Cap(nd[n].fnv \o <<n>>)>>)}
                       ELSE {Res(Kid(n, 1))}

LeafRes(n, t) ==
  LET x == tree[n]
      ch == IF x.m > 0 /\ nd[n].rnd < x.m THEN 0 ELSE x.q
      val == IF K(n) = "ref" /\ LetAnc(n) # 0 THEN Cap(nd[LetAnc(n)].fnv \o <<n>>) ELSE <<n>>
      own == CASE ch = 0 -> <<"v", val>>
               [] ch = 1 -> <<"e", <<500 + n>>>>
               [] ch = 2 -> <<"x", <<600 + n>>>>
               [] ch = 3 -> <<"s", <<>>>>
  IN IF x.r = 2 THEN (IF May(n) \/ ~StopPossible(n) THEN {<<"s", <<>>>>} ELSE {})
     ELSE IF t # (IF x.p < 0 THEN nd[n].stt ELSE x.p)
       THEN (IF K(n) = "awl" /\ ch = 2 /\ t = nd[n].stt THEN {own} ELSE {})  \* may throw at once
     ELSE IF x.r = 1 THEN (IF May(n) THEN {<<"s", <<>>>>} ELSE {}) \cup {own}
     ELSE {own}

(* t: completes inside the completion of c *)
In(c, t) == nd[c].fin /\ ~nd[c].ret /\ nd[c].t = t

(* the completions which node n may make now on thread t *)
Outcomes(n, t) ==
  LET k == K(n) IN
  CASE k = "just" -> IF t = nd[n].stt THEN {<<"v", <<n>>>>} ELSE {}
    [] k = "just3" -> IF t = nd[n].stt THEN {<<"v", <<n, 7, n, n>>>>} ELSE {}
    [] k = "just0" -> IF t = nd[n].stt THEN {<<"v", <<>>>>} ELSE {}
    [] k = "jfrom" -> IF t = nd[n].stt THEN {<<"v", <<n, 7>>>>} ELSE {}
    [] k \in {"jerr", "jefrom"} -> IF t = nd[n].stt THEN {<<"e", <<500 + n>>>>} ELSE {}
    [] k = "jexc" -> IF t = nd[n].stt THEN {<<"x", <<600 + n>>>>} ELSE {}
    [] k = "jstop" -> IF t = nd[n].stt THEN {<<"s", <<>>>>} ELSE {}
    [] k = "rtag" -> IF t = nd[n].stt THEN {<<"v", <<Tag(n, tree[n].p)>>>>} ELSE {}
    [] k = "rsched" -> IF t = nd[n].stt THEN {<<"v", <<SchedEnv(n)>>>>} ELSE {}
    [] k \in {"sched", "asched"} -> IF nd[n].s0 \in {"v", "e", "s"} /\ t = tree[n].p THEN {<<nd[n].s0, nd[n].sv>>} ELSE {}
    [] k \in {"leaf", "ref", "awl"} -> LeafRes(n, t)
    [] k \in {"then", "ue", "us"} ->
         IF ~In(Kid(n, 1), t) THEN {}
         ELSE IF ~Takes(n) THEN {Res(Kid(n, 1))}
         ELSE IF ~nd[n].fnd THEN {}
         ELSE {FnRes(n, <<"v", Cap(nd[n].fnv \o <<n>>)>>)}
    [] k = "thenv" -> IF ~In(Kid(n, 1), t) THEN {}
                      ELSE IF C1(n).ch = "v" THEN {<<"v", Cap(C1(n).v \o <<n>>)>>} ELSE {Res(Kid(n, 1))}
    [] k \in {"iv", "it", "mat", "we", "un", "sw", "id", "anys", "anyr", "fun"} -> IF In(Kid(n, 1), t) THEN {Res(Kid(n, 1))} ELSE {}
    [] k = "usr" -> IF Kid(n, 1) \in Nodes /\ C1(n).fin
                      THEN (IF In(Kid(n, 1), t) THEN {Res(Kid(n, 1))} ELSE {})
                      ELSE IF C1(n).st = "con" /\ t = nd[n].stt /\ May(n) THEN {<<"s", <<>>>>} ELSE {}
    [] k = "sopt" -> IF ~In(Kid(n, 1), t) THEN {}
                     ELSE IF C1(n).ch = "s" THEN {<<"v", <<-7>>>>} ELSE {Res(Kid(n, 1))}
    [] k = "serr" -> IF ~In(Kid(n, 1), t) THEN {}
                     ELSE IF C1(n).ch = "s" THEN {<<"e", <<2000 + n>>>>} ELSE {Res(Kid(n, 1))}
    [] k = "vsd" -> IF In(Kid(n, tree[n].p + 1), t) THEN {Res(Kid(n, tree[n].p + 1))} ELSE {}
    [] k \in LetKinds ->
         IF ~C1(n).fin THEN {}
         ELSE IF ~Takes(n) THEN (IF In(Kid(n, 1), t) THEN {Res(Kid(n, 1))} ELSE {})
         ELSE IF ~nd[n].fnd THEN {}
         ELSE IF tree[n].p = 1 THEN (IF t = C1(n).t THEN {<<"x", <<Code(n)>>>>} ELSE {})
         ELSE IF nd[Kid(n, 2)].thr # 0 THEN (IF t = C1(n).t THEN {<<"x", <<nd[Kid(n, 2)].thr>>>>} ELSE {})
         ELSE IF In(Kid(n, 2), t) THEN {Res(Kid(n, 2))} ELSE {}
    [] k \in {"wa2", "wa3", "wav"} ->
         IF \A c \in KidSet(n) : nd[c].fin
           THEN (IF (\E c \in KidSet(n) : In(c, t)) \/ May(n) THEN WARes(n) ELSE {})
           ELSE {}
    [] k = "cache" -> IF t = nd[n].stt THEN {Res(Kid(CacheAnc(n), 1))} ELSE {}
    [] k = "fj" ->
         IF ~C1(n).fin THEN {}
         ELSE IF \A c \in Parts(n) : nd[c].fin
           THEN (IF (\E c \in Parts(n) : In(c, t)) \/ May(n) THEN WARes(n) ELSE {})
         ELSE IF May(n) /\ \A c \in Parts(n) : nd[c].st = "con" /\ Rounds(c) = 0
           THEN {<<"s", <<>>>>} ELSE {}
    [] k \in BulkKinds ->
         IF ~In(Kid(n, 1), t) THEN {}
         ELSE IF C1(n).ch # "v" THEN {Res(Kid(n, 1))}
         ELSE IF nd[n].bx THEN {<<"x", <<Code(n)>>>>}
         ELSE IF nd[n].bs = 0..(tree[n].p - 1)
           THEN {<<"v", IF nd[n].bs = {} THEN C1(n).v ELSE nd[n].bv>>} ELSE {}
    [] k \in WhenAny ->
         IF \A c \in KidSet(n) : nd[c].fin
           THEN (IF (\E c \in KidSet(n) : In(c, t)) \/ May(n)
                   THEN {Res(c) : c \in nd[n].cand} \cup (IF May(n) THEN {<<"s", <<>>>>} ELSE {})
                   ELSE {})
           ELSE IF May(n) /\ \A c \in KidSet(n) : nd[c].st = "con" /\ Rounds(c) = 0
             THEN {<<"s", <<>>>>} ELSE {}
    [] k \in {"co", "coN", "twa"} ->
         IF t # tree[n].r THEN {}
         ELSE IF nd[n].s0 = "v" THEN Inner(n)
         ELSE IF nd[n].s0 \in {"e", "s"} THEN {<<nd[n].s0, nd[n].sv>>} ELSE {}
    [] k = "so" ->
         IF nd[n].s0 = "v" /\ C1(n).thr # 0 THEN (IF t = tree[n].r THEN {<<"x", <<C1(n).thr>>>>} ELSE {})
         ELSE IF nd[n].s0 = "v" THEN (IF In(Kid(n, 1), t) THEN {Res(Kid(n, 1))} ELSE {})
         ELSE IF nd[n].s0 \in {"e", "s"} /\ t = tree[n].r THEN {<<nd[n].s0, nd[n].sv>>} ELSE {}
    [] k \in {"on", "on3"} ->
         IF t # (IF k = "on" THEN SchedEnv(n) ELSE 0) THEN {}
         ELSE IF nd[n].s1 = "v" THEN Inner(n)
         ELSE IF nd[n].s1 \in {"e", "s"} THEN {<<nd[n].s1, <<>>>>} ELSE {}
    [] k \in SeqKinds ->
         LET done == {i \in 1..Len(Kids(n)) : nd[Kid(n, i)].fin}
             thr == {i \in 1..Len(Kids(n)) : nd[Kid(n, i)].thr # 0}
             last == Cardinality(done)
         IN IF done = {} THEN {}
            ELSE IF thr # {} THEN (IF nd[Kid(n, last)].t = t
                                     THEN {<<"x", <<nd[Kid(n, CHOOSE i \in thr : TRUE)].thr>>>>} ELSE {})
            ELSE IF ~In(Kid(n, last), t) THEN {}
            ELSE IF last = Len(Kids(n)) \/ nd[Kid(n, last)].ch # "v" THEN {Res(Kid(n, last))} ELSE {}
    [] k = "rn" ->
         LET c == nd[Kid(n, 1)] IN
         IF tree[n].p = 0 THEN {<<"v", <<>>>>}
         ELSE (IF c.thr # 0 THEN {<<"x", <<c.thr>>>>} ELSE
               IF c.fin /\ c.ch # "v" THEN (IF t = c.t THEN {Res(Kid(n, 1))} ELSE {})
               ELSE IF c.fin /\ Rounds(Kid(n, 1)) = tree[n].p THEN (IF t = c.t THEN {<<"v", <<>>>>} ELSE {})
               ELSE IF May(n) THEN {<<"s", <<>>>>} ELSE {})
    [] k \in {"ru", "reu"} ->
         LET c == nd[Kid(n, 1)] IN
         IF c.thr # 0 THEN {<<"x", <<c.thr>>>>}
         ELSE IF c.fin /\ c.ch # "v" THEN (IF t = c.t THEN {Res(Kid(n, 1))} ELSE {})
         ELSE IF c.fin /\ c.rnd >= tree[n].p THEN (IF t = c.t THEN {<<"v", <<>>>>} ELSE {})
         ELSE IF May(n) THEN {<<"s", <<>>>>} ELSE {}
    [] k = "fin" ->
         IF ~(C1(n).fin /\ nd[Kid(n, 2)].fin /\ In(Kid(n, 2), t)) THEN {}
         ELSE IF nd[Kid(n, 2)].ch = "v" THEN {Res(Kid(n, 1))} ELSE {Res(Kid(n, 2))}
    [] k \in TaskKinds ->
         IF t # Cur(n) THEN {}
         ELSE IF ~nd[n].bg THEN (IF k \in ETask /\ May(n) THEN {<<"s", <<>>>>} ELSE {})
         ELSE IF ~Exiting(n) \/ Due(n) # <<>> \/ (nd[n].lv # <<>> /\ ~Keeps(n)) THEN {}
         ELSE {TaskRes(n)}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Actions *)
Connect(n) ==
  /\ nd[n].st = "no"
  /\ IsRoot(n) => nd[n].rnd < reps
  /\ ~IsRoot(n) => /\ nd[Par(n)].st \in {"con", "run"}
                   /\ ConnectOK(Par(n), n)
                   \* connected again only by an adaptor which repeats
                   /\ K(Par(n)) \notin RepKinds => ~nd[n].fin /\ nd[n].thr = 0
  /\ \A m \in Desc(n) : nd[m].lv = <<>>
  /\ nd' = [m \in Nodes |->
              IF m = n THEN [Fresh EXCEPT !.st = "con", !.rnd = nd[n].rnd, !.rb = nd[n].rb]
              ELSE IF m \in Desc(n) THEN [Fresh EXCEPT !.rnd = nd[m].rnd, !.rb = nd[m].rnd]
              ELSE nd[m]]
  /\ UNCHANGED <<tree, stp, pre, reps>>

ConnectThrows(n) ==
  /\ nd[n].st = "con" /\ nd[n].rnd = nd[n].rnd
  /\ \A c \in KidSet(n) : nd[c].st = "no"
  /\ \E code \in {700 + n} \cup {nd[c].thr : c \in ThrownKid(n)} :
       /\ code = 700 + n => K(n) = "tcon" \/ (K(n) = "fun" /\ tree[n].p = 1)
       /\ nd' = [nd EXCEPT ![n].st = "no", ![n].thr = code]
  /\ UNCHANGED <<tree, stp, pre, reps>>

Start(n, t, sr) ==
  /\ nd[n].st = "con"
  /\ \A c \in KidSet(n) : nd[c].thr = 0
  /\ K(n) = "fun" => tree[n].p # 1
  /\ ~IsRoot(n) => /\ nd[Par(n)].st = "run"
                   /\ StartOK(Par(n), n, t)
  /\ SeenOK(n, sr)
  /\ nd' = [nd EXCEPT ![n].st = "run", ![n].stt = t, ![n].srs = sr, ![n].rnd = @ + 1, ![n].ct = t]
  /\ UNCHANGED <<tree, stp, pre, reps>>

CallFn(n, v, t) ==
  /\ nd[n].st = "run" /\ ~nd[n].fnd
  /\ FnDue(n, v) /\ t = FnThread(n)
  /\ nd' = [nd EXCEPT ![n].fnd = TRUE, ![n].fnv = v]
  /\ UNCHANGED <<tree, stp, pre, reps>>

(* The function of a bulk operation is called for the indices b..e-1, with the child's
   values as lvalues (it appends each index to them); in order if the policy (r) is
   sequential. *)
RECURSIVE Iota(_, _)
Iota(b, e) == IF b >= e THEN <<>> ELSE <<b>> \o Iota(b + 1, e)
BulkCall(n, b, e, v, t) ==
  /\ nd[n].st = "run" /\ K(n) \in BulkKinds
  /\ In(Kid(n, 1), t) /\ C1(n).ch = "v" /\ ~nd[n].bx
  /\ 0 <= b /\ b <= e /\ e <= tree[n].p
  /\ IF K(n) = "bulkc" THEN b < e \/ tree[n].p = 0 ELSE e = b + 1
  /\ nd[n].bs \cap b..(e - 1) = {}
  /\ tree[n].r = 0 => b = Cardinality(nd[n].bs)
  /\ v = (IF nd[n].bs = {} THEN C1(n).v ELSE nd[n].bv)
  /\ nd' = [nd EXCEPT ![n].bs = @ \cup b..(e - 1), ![n].bv = Cap(v \o Iota(b, e)),
                      ![n].bx = tree[n].q \in b..(e - 1)]
  /\ UNCHANGED <<tree, stp, pre, reps>>

SchedStart(n, r, x, t) ==
  /\ nd[n].st = "run"
  /\ K(n) \notin TaskKinds => IF r = 0 THEN nd[n].s0 = "no" ELSE nd[n].s1 = "no"
  /\ SchedStartOK(n, r, x, t)
  /\ nd' = [nd EXCEPT ![n].s0 = IF r = 0 THEN "run" ELSE @, ![n].s1 = IF r = 1 THEN "run" ELSE @,
                      ![n].xa = IF K(n) \in ETask /\ r = 0 /\ ~Moved(n) THEN Append(@, Home) ELSE @]
  /\ UNCHANGED <<tree, stp, pre, reps>>

SchedDone(n, r, x, c, v, t) ==
  /\ nd[n].st = "run"
  /\ IF r = 0 THEN nd[n].s0 = "run" ELSE nd[n].s1 = "run"
  /\ SchedDoneOK(n, r, x, c, v, t)
  /\ nd' = [nd EXCEPT ![n].s0 = IF r = 0 THEN c ELSE @, ![n].s1 = IF r = 1 THEN c ELSE @,
                      ![n].sv = IF r = 0 THEN v ELSE @,
                      ![n].hp = @ + 1, ![n].ct = x,
                      ![n].hs = IF c # "s" \/ K(n) \notin TaskKinds THEN @
                                ELSE IF \E j \in 1..Len(nd[n].lv) : nd[n].lv[j] = 0 THEN 1 ELSE 2,
                      \* the way home is the last exit action due
                      ![n].xa = IF r = 1 /\ Moved(n) /\ Home \in {nd[n].xa[j] : j \in 1..Len(nd[n].xa)}
                                  THEN SubSeq(@, 1, (CHOOSE j \in 1..Len(@) : @[j] = Home) - 1) ELSE @]
  /\ UNCHANGED <<tree, stp, pre, reps>>

(* children which may count as the first of p's children (to fail / to complete) *)
Counts(p, ch) == \/ K(p) \in WhenAny
                 \/ K(p) \in WhenAll \cup {"fj"} /\ ch \in {"e", "x"}
NewCand(n, ch) ==
  IF IsRoot(n) THEN {}
  ELSE LET p == Par(n) IN
       IF Counts(p, ch) /\ n \in Parts(p) /\ ~\E c \in nd[p].cand : nd[c].ret
         THEN nd[p].cand \cup {n} ELSE nd[p].cand

Complete(n, ch, v, t, sr) ==
  /\ nd[n].st = "run"
  /\ \A c \in KidSet(n) : nd[c].st # "run"
  /\ <<ch, v>> \in Outcomes(n, t)
  /\ SeenOK(n, sr)
  /\ nd' = LET a == [nd EXCEPT ![n].st = "done", ![n].fin = TRUE, ![n].ch = ch, ![n].v = v, ![n].t = t]
           IN IF IsRoot(n) THEN a ELSE [a EXCEPT ![Par(n)].cand = NewCand(n, ch), ![Par(n)].hp = 0]
  /\ UNCHANGED <<tree, stp, pre, reps>>

(* k: the round which completed; the call may return after a later round began *)
Return(n, k) ==
  /\ k <= nd[n].rnd
  /\ nd' = IF k = nd[n].rnd /\ nd[n].fin THEN [nd EXCEPT ![n].ret = TRUE] ELSE nd
  /\ UNCHANGED <<tree, stp, pre, reps>>

Destroy(n) ==
  /\ nd[n].st \in {"con", "done"}
  /\ nd' = [nd EXCEPT ![n].st = "no"]
  /\ UNCHANGED <<tree, stp, pre, reps>>

(* A local of the coroutine at level i of the task n comes to life or ends; the levels
   nest, and a local ends when the body is left. *)
LocBegin(n, i, t) ==
  /\ nd[n].st = "run" /\ K(n) \in TaskKinds /\ ~nd[n].bg /\ t = nd[n].stt
  /\ i = tree[n].q - Len(nd[n].lv) /\ i >= 0
  /\ nd' = [nd EXCEPT ![n].lv = Append(@, i), ![n].bg = (i = 0)]
  /\ UNCHANGED <<tree, stp, pre, reps>>

LocEnd(n, i, t) ==
  /\ nd[n].lv # <<>> /\ nd[n].lv[Len(nd[n].lv)] = i
  /\ \A c \in KidSet(n) : nd[c].st = "no"
  /\ \/ /\ nd[n].st = "run" /\ t = Cur(n)
        /\ IF i = 0 THEN BodyOver(n) /\ ~Keeps(n) ELSE Exiting(n) /\ Due(n) = <<>> /\ ~Keeps(n)
     \/ nd[n].st \in {"done", "no"} /\ nd[n].ch = "s" /\ K(n) \notin STask
  /\ nd' = [nd EXCEPT ![n].lv = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<tree, stp, pre, reps>>

ExitReg(n, i, t) ==
  /\ nd[n].st = "run" /\ K(n) \in ETask /\ nd[n].bg /\ ~BodyOver(n) /\ Settled(n) /\ t = Cur(n)
  /\ \A c \in KidSet(n) : nd[c].st = "no"
  /\ i \in 0..((tree[n].m % 4) - 1)
  /\ i \notin {nd[n].xa[j] : j \in 1..Len(nd[n].xa)}
  /\ IF i < 2 THEN NDone(n) = 0 ELSE NDone(n) = 1
  /\ nd' = [nd EXCEPT ![n].xa = Append(@, i)]
  /\ UNCHANGED <<tree, stp, pre, reps>>

(* exit actions run in the reverse order of their registration, those which do not apply
   are skipped *)
ExitRun(n, i, t) ==
  /\ nd[n].st = "run" /\ Exiting(n) /\ t = nd[n].ct
  /\ Due(n) # <<>> /\ Due(n)[Len(Due(n))] = i
  /\ nd' = [nd EXCEPT ![n].xa = SubSeq(@, 1, (CHOOSE j \in 1..Len(@) : @[j] = i) - 1)]
  /\ UNCHANGED <<tree, stp, pre, reps>>

StopBegin(w) == stp[w] = 0 /\ stp' = [stp EXCEPT ![w] = 1] /\ UNCHANGED <<tree, nd, pre, reps>>
StopEnd(w) == stp[w] = 1 /\ stp' = [stp EXCEPT ![w] = 2] /\ UNCHANGED <<tree, nd, pre, reps>>

Quiet == \A n \in Nodes : nd[n].st = "no" /\ nd[n].s0 # "run" /\ nd[n].s1 # "run" /\ nd[n].lv = <<>>

InitWith(tr, pr, rp) ==
  /\ tree = tr /\ pre = pr /\ reps = rp
  /\ nd = [n \in 1..Len(tr) |-> Fresh]
  /\ stp = [w \in {0, 1} |-> 0]

-----------------------------------------------------------------------------
(* Properties *)
(* a child completes before its parent does, and runs only while its parent runs *)
Nesting == \A n \in Nodes : nd[n].st = "run" /\ ~IsRoot(n) => nd[Par(n)].st = "run"
(* an operation which has completed has no running children *)
Barrier == \A n \in Nodes : nd[n].st = "done" => \A c \in KidSet(n) : nd[c].st # "run"
(* nothing completes that was not started *)
StartedFirst == \A n \in Nodes : nd[n].fin => nd[n].rnd >= 1
=============================================================================
