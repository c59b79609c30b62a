------------------------------ MODULE MCAlloc ------------------------------
(* All programs with up to Depth layers, and all orders in which their nodes may
   come and go, with up to MaxB blocks at a time. *)
EXTENDS Alloc, TLC
CONSTANTS Depth, MaxB, Kinds, Roots
Chains == UNION {[1..n -> Kinds] : n \in 0..Depth}
Progs ==
  {[rk |-> rk, f |-> f, attr |-> t, drop |-> d, ch |-> 0, k |-> Append(c, "leaf")] :
     rk \in Roots, f \in 0..3, t \in {0, 1}, d \in {0, 1}, c \in Chains}
\* fnq and fna need an environment which answers
Ok(p) ==
  /\ (p.rk # "conn") => p.f < 2
  /\ (p.attr = 1) => p.rk \in {"spawn", "sf"}
  /\ (p.drop = 1) => p.rk \in {"sf", "es", "split"}
MCInit == \E p \in Progs : Ok(p) /\ InitWith(p)
Runs == \A i \in 0..N : (K(i) = "fnq" => EnvAt(i).f # 0) /\ (K(i) = "fna" => EnvAt(i).a # 0)
Here(i) == <<"op", i>> \in DOMAIN loc
Places == DOMAIN blk \cup {0}
Fresh == CHOOSE b \in 1..(MaxB + Cardinality(used)) : b \notin used
MCNext ==
  /\ Runs
  /\ \/ /\ Cardinality(DOMAIN blk) < MaxB /\ Cardinality(used) < MaxB + 1
        /\ \E r \in AllRes : Alc(Fresh, r, 8, 8)
     \/ fails = 0 /\ leaf < 0 /\ \E r \in AllRes : AlcFails(r)
     \/ \E b \in DOMAIN blk : Dea(b, blk[b].r, 8, 8)
     \/ \E i \in 0..N, b \in Places :
          /\ leaf = -2 /\ fails = 0
          /\ \A j \in 0..(i - 1) : Here(j)
          /\ At(i, b, 0)
     \/ \E i \in 0..N : Here(i) /\ (\A j \in (i + 1)..N : ~Here(j)) /\ (leaf # -1) /\ Off(i)
     \/ \E i \in 0..N, b \in Places : K(i) \in {"task", "tasks"} /\ leaf = -2 /\ Frame(i, b)
     \/ \E i \in 0..N : FrameOff(i)
     \/ fails = 0 /\ leaf = -2 /\ Here(N) /\ LeafThrows
     \/ Here(N) /\ Start(N, EnvAt(N).a, EnvAt(N).f)
     \/ \E q \in {0, 1} : rq = <<>> /\ (IF q = 0 THEN EnvAt(N).a ELSE EnvAt(N).f) # 0 /\ Req(0, q, 8)
     \/ \E b \in Places : 0 \in DOMAIN rq /\ Got(0, b, 0, 0)
     \/ Rel(0, 1)
     \/ Reld(0)
     \/ LeafDone(IF fails > 0 THEN 1 ELSE prog.ch)
     \/ \E c \in 0..2 : Complete(c)
     \/ Throw
     \/ Drop
MCSpec == MCInit /\ [][MCNext]_vars
\* what lives somewhere lives in memory of the right allocator
Placed ==
  \A x \in DOMAIN loc :
    LET r == IF x[1] = "op" THEN OpRes(x[2]) ELSE IF x[1] = "fr" THEN 30 + x[2]
             ELSE IF rq[x[2]].q = 0 THEN EnvAt(N).a ELSE EnvAt(N).f IN
    IF r = Std THEN loc[x] = 0 ELSE blk[loc[x]].r = r
\* a failure is never lost
Failed == fails > 0 => out \in {-2, -3, -4, 1}
\* no value without the leaf's
Answer == out = 0 => leaf = 0
=============================================================================
