------------------------------- MODULE Scopes -------------------------------
(* Async scopes (simple_counting_scope, counting_scope) and the
   work which is tied to them: raw associations, spawn, spawn_future and
   associate.  Public calls are intervals; their effect takes place at one
   instant in between (the *Lin actions).                                      *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS As, Js, Ks,
          Kind   \* "simple" "counting"

VARIABLES
  cnt, closed, used, joining, joined,
  as,           \* raw associations: none call yes no held rel gone
  cl,           \* close(): "no" "call" "lin"
  js,           \* joins / on_empty: idle call inl reg rdy done
  jret, jsA,    \* its start() returned; its receiver's stop was requested
  ssA, ssB,     \* the scope's request_stop was called / returned
  w,            \* work: idle call yes ref run fin
  kd,           \* its kind: "spawn" "future" "assoc"
  ret,          \* the call which created it returned
  bad,          \* ... with an exception
  live, mem,    \* the nested operation exists; the size of the allocation or 0
  ass,          \* it holds an association
  rdy, seen,    \* the nested operation listens for stop; it was told to stop
  res,          \* its result
  fs,           \* the future / associated operation: none held con start done drop gone
  fsA, fsB      \* stop of the future's receiver was called / returned
scopeV == <<cnt, closed, used, joining, joined>>
joinV == <<js, jret, jsA>>
workV == <<w, kd, ret, bad, live, mem, rdy, seen, res>>
futV == <<fs, fsA, fsB>>
vars == <<cnt, closed, used, joining, joined, as, cl, js, jret, jsA, ssA, ssB, w, kd, ret, bad, live, mem, ass, rdy, seen, res, fs, fsA, fsB>>

Init ==
  /\ cnt = 0 /\ closed = FALSE /\ used = FALSE /\ joining = FALSE /\ joined = FALSE
  /\ as = [a \in As |-> "none"] /\ cl = "no"
  /\ js = [j \in Js |-> "idle"] /\ jret = [j \in Js |-> FALSE] /\ jsA = [j \in Js |-> FALSE]
  /\ ssA = FALSE /\ ssB = FALSE
  /\ w = [k \in Ks |-> "idle"] /\ kd = [k \in Ks |-> ""] /\ ret = [k \in Ks |-> FALSE]
  /\ bad = [k \in Ks |-> FALSE]
  /\ live = [k \in Ks |-> FALSE] /\ mem = [k \in Ks |-> 0] /\ ass = [k \in Ks |-> FALSE]
  /\ rdy = [k \in Ks |-> FALSE] /\ seen = [k \in Ks |-> FALSE] /\ res = [k \in Ks |-> <<"", 0>>]
  /\ fs = [k \in Ks |-> "none"] /\ fsA = [k \in Ks |-> FALSE] /\ fsB = [k \in Ks |-> FALSE]

(* ---- the scope itself *)
Inc == cnt' = cnt + 1 /\ used' = TRUE /\ UNCHANGED <<closed, joining, joined>>
(* the last association to end completes the registered joins *)
Dec ==
  /\ cnt > 0 /\ cnt' = cnt - 1
  /\ IF cnt = 1 /\ joining
       THEN /\ js' = [j \in Js |-> IF js[j] = "reg" THEN "rdy" ELSE js[j]]
            /\ joining' = FALSE
            /\ joined' = TRUE /\ closed' = TRUE
       ELSE UNCHANGED <<js, joined, closed, joining>>
  /\ UNCHANGED <<used, jret, jsA>>

CloseCall == cl # "call" /\ cl' = "call" /\ UNCHANGED <<scopeV, as, joinV, ssA, ssB, workV, ass, futV>>
CloseLin ==
  /\ cl = "call" /\ cl' = "lin" /\ closed' = TRUE
  /\ UNCHANGED <<cnt, used, joining, joined, as, joinV, ssA, ssB, workV, ass, futV>>
CloseRet == cl = "lin" /\ UNCHANGED vars
StopCall == ssA' = TRUE /\ UNCHANGED <<scopeV, as, cl, joinV, ssB, workV, ass, futV>>
(* two stop requests at once: the one which comes second does not wait for the first *)
Two(k) == ssA /\ Kind = "counting" /\ (fsA[k] \/ fs[k] \in {"drop", "gone"})
Told(k) == (rdy[k] /\ w[k] = "run") => seen[k] \/ Two(k)
(* everything which listened was told *)
StopRet ==
  /\ ssA /\ ssB' = TRUE
  /\ Kind # "simple" => \A k \in Ks : Told(k)
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, workV, ass, futV>>

(* ---- raw associations *)
AssocCall(a) ==
  /\ as[a] = "none" /\ as' = [as EXCEPT ![a] = "call"]
  /\ UNCHANGED <<scopeV, cl, joinV, ssA, ssB, workV, ass, futV>>
AssocLin(a) ==
  /\ as[a] = "call"
  /\ IF closed THEN as' = [as EXCEPT ![a] = "no"] /\ UNCHANGED scopeV
               ELSE as' = [as EXCEPT ![a] = "yes"] /\ Inc
  /\ UNCHANGED <<cl, joinV, ssA, ssB, workV, ass, futV>>
AssocRet(a, ok) ==
  /\ as[a] = (IF ok THEN "yes" ELSE "no")
  /\ as' = [as EXCEPT ![a] = IF ok THEN "held" ELSE "gone"]
  /\ UNCHANGED <<scopeV, cl, joinV, ssA, ssB, workV, ass, futV>>
RelCall(a) ==
  /\ as[a] = "held" /\ as' = [as EXCEPT ![a] = "rel"]
  /\ UNCHANGED <<scopeV, cl, joinV, ssA, ssB, workV, ass, futV>>
RelLin(a) ==
  /\ as[a] = "rel" /\ as' = [as EXCEPT ![a] = "gone"] /\ Dec
  /\ UNCHANGED <<cl, ssA, ssB, workV, ass, futV>>
RelRet(a) == as[a] = "gone" /\ UNCHANGED vars

(* ---- join / on_empty *)
JoinStop(j) == jsA' = [jsA EXCEPT ![j] = TRUE] /\ UNCHANGED <<scopeV, as, cl, js, jret, ssA, ssB, workV, ass, futV>>
JoinCall(j) ==
  /\ js[j] = "idle" /\ js' = [js EXCEPT ![j] = "call"]
  /\ UNCHANGED <<scopeV, as, cl, jret, jsA, ssA, ssB, workV, ass, futV>>
JoinLin(j) ==
  /\ js[j] = "call"
  /\ IF cnt = 0
       THEN /\ js' = [js EXCEPT ![j] = "inl"]
            /\ joined' = TRUE /\ closed' = TRUE
            /\ UNCHANGED joining
       ELSE js' = [js EXCEPT ![j] = "reg"] /\ joining' = TRUE /\ UNCHANGED <<joined, closed>>
  /\ UNCHANGED <<cnt, used, as, cl, jret, jsA, ssA, ssB, workV, ass, futV>>
(* nothing outstanding: at once; otherwise where the receiver's scheduler says
   (which may be stopped), or still within start()                            *)
JoinDone(j, c, onsch) ==
  /\ \/ js[j] = "inl" /\ c = "v" /\ ~onsch
     \/ js[j] = "rdy" /\ c = "v" /\ ~onsch /\ ~jret[j]
     \/ js[j] = "rdy" /\ onsch /\ (c = "v" \/ (c = "s" /\ jsA[j]))
  /\ js' = [js EXCEPT ![j] = "done"]
  /\ UNCHANGED <<scopeV, as, cl, jret, jsA, ssA, ssB, workV, ass, futV>>
JoinRet(j) ==
  /\ js[j] \in {"reg", "rdy", "done"} /\ jret' = [jret EXCEPT ![j] = TRUE]
  /\ UNCHANGED <<scopeV, as, cl, js, jsA, ssA, ssB, workV, ass, futV>>
(* the scope may go away when it is joined or was never used *)
Gone ==
  /\ joined \/ ~used
  /\ cnt = 0 /\ UNCHANGED vars

(* ---- work *)
WorkCall(k, kind) ==
  /\ w[k] = "idle" /\ w' = [w EXCEPT ![k] = "call"] /\ kd' = [kd EXCEPT ![k] = kind]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, ret, bad, live, mem, ass, rdy, seen, res, futV>>
Alloc(k, n) ==
  /\ w[k] = "call" /\ n > 0 /\ mem[k] = 0 /\ ~live[k] /\ kd[k] # "assoc" /\ mem' = [mem EXCEPT ![k] = n]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, live, ass, rdy, seen, res, futV>>
(* the nested operation is connected *)
Connect(k) ==
  /\ ~live[k] /\ live' = [live EXCEPT ![k] = TRUE]
  /\ IF kd[k] = "assoc" THEN fs[k] = "con" /\ w[k] = "yes"
                        ELSE w[k] \in {"call", "yes"} /\ ~ret[k] /\ mem[k] > 0
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, mem, ass, rdy, seen, res, futV>>
WorkLin(k) ==
  /\ w[k] = "call" /\ ~ret[k] /\ ~bad[k]
  /\ kd[k] # "assoc" => mem[k] > 0 /\ live[k]
  /\ IF closed THEN w' = [w EXCEPT ![k] = "ref"] /\ UNCHANGED <<scopeV, ass>>
               ELSE w' = [w EXCEPT ![k] = "yes"] /\ ass' = [ass EXCEPT ![k] = TRUE] /\ Inc
  /\ UNCHANGED <<as, cl, joinV, ssA, ssB, kd, ret, bad, live, mem, rdy, seen, res, futV>>
(* an allocation or connect failed: nothing is left *)
WorkThrow(k) ==
  /\ w[k] \in {"call", "yes"} /\ ~live[k] /\ mem[k] = 0 /\ ~ass[k] /\ w' = [w EXCEPT ![k] = "fin"]
  /\ ret' = [ret EXCEPT ![k] = TRUE] /\ bad' = [bad EXCEPT ![k] = TRUE]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, kd, live, mem, ass, rdy, seen, res, futV>>
WorkRet(k) ==
  /\ ~ret[k] /\ ~bad[k] /\ ret' = [ret EXCEPT ![k] = TRUE]
  /\ CASE kd[k] = "spawn" -> w[k] \in {"run", "fin"} \/ (w[k] = "ref" /\ ~live[k] /\ mem[k] = 0)
       [] kd[k] = "future" -> w[k] \in {"run", "fin", "ref"}
       [] OTHER -> w[k] \in {"yes", "ref"}
  /\ fs' = [fs EXCEPT ![k] = IF kd[k] = "spawn" THEN "none" ELSE "held"]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, bad, live, mem, ass, rdy, seen, res, fsA, fsB>>
(* only associated work is started, and once *)
LeafStart(k) ==
  /\ w[k] = "yes" /\ live[k] /\ ass[k] /\ (kd[k] = "assoc" => fs[k] = "start") /\ (kd[k] # "assoc" => ~ret[k])
  /\ w' = [w EXCEPT ![k] = "run"]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, kd, ret, bad, live, mem, ass, rdy, seen, res, futV>>
LeafReady(k) ==
  /\ w[k] \in {"run", "fin"} /\ rdy' = [rdy EXCEPT ![k] = TRUE]
  /\ (w[k] = "run" /\ ssB /\ Kind # "simple") => seen[k] \/ Two(k)
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, live, mem, ass, seen, res, futV>>
(* it is about to complete and listens no longer *)
LeafUnready(k) ==
  /\ w[k] = "run" /\ rdy' = [rdy EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, live, mem, ass, seen, res, futV>>
(* stop reaches the work from the scope, or from the future being stopped or dropped *)
LeafStop(k) ==
  /\ w[k] = "run" /\ live[k] /\ ~seen[k] /\ seen' = [seen EXCEPT ![k] = TRUE]
  /\ \/ ssA /\ Kind # "simple"
     \/ kd[k] # "spawn" /\ fsA[k] /\ fs[k] \in {"start", "done"}
     \/ kd[k] = "future" /\ fs[k] \in {"drop", "gone"}
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, live, mem, ass, rdy, res, futV>>
LeafDone(k, c, v) ==
  /\ w[k] = "run" /\ live[k] /\ w' = [w EXCEPT ![k] = "fin"] /\ res' = [res EXCEPT ![k] = <<c, v>>]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, kd, ret, bad, live, mem, ass, rdy, seen, futV>>
Over(k) ==   \* nobody needs the nested operation any more
  CASE kd[k] = "spawn" -> w[k] \in {"fin", "ref"}
    [] kd[k] = "future" -> \/ w[k] \in {"fin", "ref"} /\ (fs[k] \in {"done", "drop", "gone"} \/ fsA[k])
    [] OTHER -> \/ fs[k] \in {"drop", "gone"} /\ w[k] \in {"yes", "ref", "fin"}
                \/ fs[k] = "con" /\ w[k] = "yes" /\ ~live[k]   \* connecting it failed
LeafDes(k) ==
  /\ live[k] /\ Over(k) /\ live' = [live EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, mem, ass, rdy, seen, res, futV>>
(* everything is handed back, and only when the nested operation is gone *)
Dealloc(k, n) ==
  /\ mem[k] = n /\ n > 0 /\ ~live[k] /\ mem' = [mem EXCEPT ![k] = 0]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, w, kd, ret, bad, live, ass, rdy, seen, res, futV>>
(* the association ends last *)
WorkRel(k) ==
  /\ ass[k] /\ ass' = [ass EXCEPT ![k] = FALSE] /\ Over(k) /\ ~live[k]
  /\ mem[k] = 0
  /\ Dec /\ UNCHANGED <<as, cl, ssA, ssB, workV, futV>>

(* ---- what the caller does with a future or an associated sender *)
FutConnect(k) ==
  /\ fs[k] = "held" /\ fs' = [fs EXCEPT ![k] = "con"]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fsA, fsB>>
FutStart(k) ==
  /\ fs[k] = "con" /\ fs' = [fs EXCEPT ![k] = "start"]
  /\ kd[k] = "assoc" => live[k] \/ w[k] = "ref"
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fsA, fsB>>
FutDone(k, c, v) ==
  /\ fs[k] = "start" /\ fs' = [fs EXCEPT ![k] = "done"]
  /\ \/ w[k] = "fin" /\ ~bad[k] /\ <<c, v>> = res[k] /\ (kd[k] = "future" => mem[k] > 0)
     \/ w[k] = "ref" /\ c = "s"
     \/ kd[k] = "future" /\ fsA[k] /\ c = "s"
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fsA, fsB>>
FutDropCall(k) ==
  /\ \/ fs[k] \in {"held", "con"}
     \/ kd[k] = "assoc" /\ fs[k] = "done"
  /\ fs' = [fs EXCEPT ![k] = "drop"]
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fsA, fsB>>
FutDropRet(k) ==
  /\ fs[k] = "drop" /\ fs' = [fs EXCEPT ![k] = "gone"]
  /\ kd[k] = "assoc" => ~live[k] /\ ~ass[k]
  /\ kd[k] = "future" => Told(k)
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fsA, fsB>>
FutStopCall(k) ==
  /\ fsA' = [fsA EXCEPT ![k] = TRUE] /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fs, fsB>>
FutStopRet(k, lis) ==
  /\ fsA[k] /\ fsB' = [fsB EXCEPT ![k] = TRUE]
  (* lis: the future was listening before the request was made *)
  /\ lis => Told(k)
  /\ UNCHANGED <<scopeV, as, cl, joinV, ssA, ssB, workV, ass, fs, fsA>>

(* ---- properties *)
Outstanding == Cardinality({a \in As : as[a] \in {"yes", "held", "rel"}}) + Cardinality({k \in Ks : ass[k]})
CountRight == cnt = Outstanding
JoinedMeansOver ==
  /\ joined => cnt = 0
  /\ \A j \in Js : js[j] = "done" => cnt = 0 /\ \A k \in Ks : w[k] # "run" /\ ~ass[k]
RefusedNeverRuns == \A k \in Ks : w[k] = "ref" => ~ass[k]
NothingLeft == joined => \A k \in Ks : w[k] = "fin" => ~live[k] /\ mem[k] = 0
RunningIsTracked == \A k \in Ks : w[k] = "run" => ass[k]
ClosedStays == [][closed => closed']_vars
NoGrowth == [][(closed /\ cnt = 0) => cnt' = 0]_vars
=============================================================================
