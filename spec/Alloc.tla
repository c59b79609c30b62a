------------------------------- MODULE Alloc -------------------------------
(* What an operation does with the allocators of its environment (P29).

   A program is a chain of nodes 0..N, each made from the next one:
     wa   write_env(_, prop(get_allocator, 10+i))
     wf   write_env(_, prop(get_frame_allocator, 20+i)); wp: a pointer to the resource
     fn   exec::function without queries;  fnq / fna: with the query
          get_frame_allocator / get_allocator
     task, tasks   a stdexec::task whose frame is allocated with 30+i (tasks:
          with a task_scheduler)
     thn  then(_, a function object that uses allocators)
     let  let_value(_, such a function object)
     jv   let_value(just(...), a function that makes the next node)
     leaf
   (direct: the leaf is not an operation, but uses two allocators of one of the
   library's allocator types, made from the resources 1 and 2)
   and a root: connected to a receiver, spawn, spawn_future, start_detached,
   ensure_started or split.  Resources are numbered; 0: the environment does
   not answer the query; Std: memory of std::allocator, which is not observed.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES
  prog,    \* [rk, f, attr, drop, ch, k]
  blk,     \* the blocks handed out: [r, n, al]
  used,    \* ids of all blocks ever handed out
  loc,     \* where nodes live: <<"op", i>>, <<"fr", i>>, <<"rq", h>> -> block or 0
  fails,   \* number of failures so far: allocations and the leaf's connect
  leaf,    \* -2: not started, -1: runs, or the channel it completed with
  out,     \* -2: nothing yet, -3: threw, -4: dropped, or the root's channel
  rq       \* requests being made or given back: h -> [q, n]
vars == <<prog, blk, used, loc, fails, leaf, out, rq>>

Std == 99
Default == 9
N == Len(prog.k) - 1
K(i) == prog.k[i + 1]

\* the allocator of the root's own allocation
RootRes ==
  IF prog.rk \in {"conn", "direct"} THEN Std
  ELSE IF prog.f % 2 = 1 THEN 1
  ELSE IF prog.attr = 1 THEN 3 ELSE Std
RootEnv ==
  IF prog.rk = "conn" THEN [a |-> prog.f % 2, f |-> IF prog.f >= 2 THEN 2 ELSE 0]
  ELSE IF prog.rk = "direct" THEN IF prog.f = 0 THEN [a |-> Std, f |-> Std] ELSE [a |-> 1, f |-> 2]
  ELSE [a |-> IF RootRes = Std THEN 0 ELSE RootRes, f |-> 0]

\* frame allocator, else allocator, else std::allocator
Choose(v) == IF v.f # 0 THEN v.f ELSE IF v.a # 0 THEN v.a ELSE Std

Inner(i, v) ==
  CASE K(i) = "wa" -> [a |-> 10 + i, f |-> v.f]
    [] K(i) \in {"wf", "wp"} -> [a |-> v.a, f |-> 20 + i]
    [] K(i) = "fn" -> [a |-> 0, f |-> Choose(v)]
    [] K(i) = "fnq" -> [a |-> 0, f |-> v.f]
    [] K(i) = "fna" -> [a |-> v.a, f |-> Choose(v)]
    [] K(i) \in {"task", "tasks"} -> [a |-> IF v.a # 0 THEN v.a ELSE Default, f |-> 0]
    [] OTHER -> v
RECURSIVE EnvAt(_)
EnvAt(i) == IF i = 0 THEN RootEnv ELSE Inner(i - 1, EnvAt(i - 1))

\* where the operation of node i has to be
OpRes(i) ==
  IF i = 0 THEN RootRes
  ELSE IF K(i - 1) \in {"fn", "fnq", "fna"} THEN Choose(EnvAt(i - 1))
  ELSE IF K(i - 1) \in {"task", "tasks"} THEN 30 + i - 1
  ELSE Std

\* the resources that this program may use at all
AllRes ==
  ({OpRes(i) : i \in 0..N} \cup {EnvAt(i).a : i \in 0..N} \cup {EnvAt(i).f : i \in 0..N}
    \cup {30 + i : i \in {j \in 0..N : K(j) \in {"task", "tasks"}}}) \ {0, Std}

In(b, r) == IF r = Std THEN b = 0 ELSE b \in DOMAIN blk /\ blk[b].r = r

InitWith(p) ==
  /\ prog = p /\ blk = <<>> /\ used = {} /\ loc = <<>> /\ fails = 0
  /\ leaf = -2 /\ out = -2 /\ rq = <<>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Alc(b, r, n, al) ==
  /\ b \notin used
  /\ r \in AllRes
  /\ blk' = Put(blk, b, [r |-> r, n |-> n, al |-> al])
  /\ used' = used \cup {b}
  /\ UNCHANGED <<prog, loc, fails, leaf, out, rq>>

AlcFails(r) ==
  /\ r \in AllRes
  /\ fails' = fails + 1
  /\ UNCHANGED <<prog, blk, used, loc, leaf, out, rq>>

\* given back to where it is from, as it was asked for, when nothing lives in it
Dea(b, r, n, al) ==
  /\ b \in DOMAIN blk
  /\ blk[b] = [r |-> r, n |-> n, al |-> al]
  /\ \A x \in DOMAIN loc : loc[x] # b
  /\ blk' = Del(blk, b)
  /\ UNCHANGED <<prog, used, loc, fails, leaf, out, rq>>

Live(x, b, mis, r) ==
  /\ x \notin DOMAIN loc
  /\ mis = 0
  /\ In(b, r)
  /\ loc' = Put(loc, x, b)

At(i, b, mis) ==
  /\ i \in 0..N
  /\ Live(<<"op", i>>, b, mis, OpRes(i))
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>
Off(i) ==
  /\ <<"op", i>> \in DOMAIN loc
  /\ loc' = Del(loc, <<"op", i>>)
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>
Frame(i, b) ==
  /\ Live(<<"fr", i>>, b, 0, 30 + i)
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>
FrameOff(i) ==
  /\ <<"fr", i>> \in DOMAIN loc
  /\ loc' = Del(loc, <<"fr", i>>)
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>

\* a function object runs: it has been made with the allocator of its environment
Use(i, r, b) ==
  /\ K(i) \in {"thn", "let"}
  /\ r = EnvAt(i).a
  /\ IF r = 0 THEN b = 0 ELSE In(b, r)
  /\ UNCHANGED vars

LeafThrows ==
  /\ fails' = fails + 1
  /\ UNCHANGED <<prog, blk, used, loc, leaf, out, rq>>

\* f = -1: an adaptor that does not tell what it adapts
Start(i, a, f) ==
  /\ leaf = -2 /\ fails = 0 /\ i = N
  /\ IF prog.rk = "direct" THEN TRUE
     ELSE /\ a = EnvAt(N).a
          /\ IF f = -1 THEN EnvAt(N).f # 0 ELSE f = EnvAt(N).f
  /\ leaf' = -1
  /\ UNCHANGED <<prog, blk, used, loc, fails, out, rq>>

\* the leaf asks for memory itself: q = 0 from get_allocator, 1 from get_frame_allocator
Req(h, q, n) ==
  /\ leaf = -1
  /\ rq' = Put(rq, h, [q |-> q, n |-> n])
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, out>>
Got(h, b, off, mis) ==
  /\ h \in DOMAIN rq
  /\ LET r == IF rq[h].q = 0 THEN EnvAt(N).a ELSE EnvAt(N).f IN
     /\ Live(<<"rq", h>>, b, mis, r)
     /\ (b # 0) => ((off + rq[h].n <= blk[b].n) /\ (\A x \in DOMAIN loc : loc[x] # b))
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>
Refused(h) ==
  /\ h \in DOMAIN rq /\ <<"rq", h>> \notin DOMAIN loc
  /\ fails > 0
  /\ rq' = Del(rq, h)
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, out>>
\* allocators are equal iff they can give back each other's blocks
Equal(x, y) == y = 1 /\ (x = 1) = (EnvAt(0).a = EnvAt(0).f) /\ UNCHANGED vars
Rel(h, ok) ==
  /\ ok = 1
  /\ <<"rq", h>> \in DOMAIN loc
  /\ loc' = Del(loc, <<"rq", h>>)
  /\ UNCHANGED <<prog, blk, used, fails, leaf, out, rq>>
\* its block is gone, so no block of the resource is without an owner
Reld(h) ==
  /\ h \in DOMAIN rq /\ <<"rq", h>> \notin DOMAIN loc
  /\ rq' = Del(rq, h)
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, out>>

LeafDone(c) ==
  /\ leaf = -1
  /\ fails > 0 => c = 1
  /\ leaf' = c
  /\ UNCHANGED <<prog, blk, used, loc, fails, out, rq>>

Seen == prog.rk \in {"conn", "sf", "es", "split"}
Complete(c) ==
  /\ out = -2 /\ Seen /\ prog.drop = 0
  /\ leaf # -1
  /\ IF leaf = -2 THEN fails > 0 /\ c = 1 ELSE c = leaf
  /\ out' = c
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, rq>>
Throw ==
  /\ out = -2 /\ fails > 0 /\ leaf = -2
  /\ out' = -3
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, rq>>
Drop ==
  /\ prog.drop = 1 /\ out = -2
  /\ out' = -4
  /\ UNCHANGED <<prog, blk, used, loc, fails, leaf, rq>>

Quiet ==
  /\ DOMAIN blk = {} /\ DOMAIN loc = {}
  /\ leaf # -1
  /\ IF Seen THEN out # -2 ELSE leaf # -2 \/ fails > 0

\* a request is served by a block of its own
Disjoint ==
  \A x, y \in DOMAIN loc : x # y /\ x[1] = "rq" /\ loc[x] # 0 => loc[y] # loc[x]
\* what lives in observed memory lives in a block which has not been given back
InLive == \A x \in DOMAIN loc : loc[x] # 0 => loc[x] \in DOMAIN blk
=============================================================================
