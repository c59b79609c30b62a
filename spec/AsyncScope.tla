----------------------------- MODULE AsyncScope -----------------------------
(* exec::async_scope: nest, spawn, spawn_future, on_empty / when_empty.
   Nothing is ever refused: work counts from the start of its operation until
   its completion has been delivered.                                          *)
EXTENDS Integers, FiniteSets

CONSTANTS Js, Ks
VARIABLES
  ssA, ssB,     \* the scope's request_stop was called / returned
  es, eret,     \* on_empty: idle call inl reg rdy run done; its start() returned
  w, kd, ret,   \* work: idle call run fin; its kind; the call which made it returned
  live, act,    \* the nested operation exists; it counts
  was,          \* it has counted
  rdy, seen, res,
  fs, fsA       \* the future / nested operation: none held con start done drop gone
eV == <<es, eret>>
lV == <<live, rdy, seen, res>>
fV == <<fs, fsA>>
vars == <<ssA, ssB, es, eret, w, kd, ret, live, act, was, rdy, seen, res, fs, fsA>>

Init ==
  /\ ssA = FALSE /\ ssB = FALSE /\ es = [j \in Js |-> "idle"] /\ eret = [j \in Js |-> FALSE]
  /\ w = [k \in Ks |-> "idle"] /\ kd = [k \in Ks |-> ""] /\ ret = [k \in Ks |-> FALSE]
  /\ live = [k \in Ks |-> FALSE] /\ act = [k \in Ks |-> FALSE] /\ was = [k \in Ks |-> FALSE]
  /\ rdy = [k \in Ks |-> FALSE] /\ seen = [k \in Ks |-> FALSE] /\ res = [k \in Ks |-> <<"", 0>>]
  /\ fs = [k \in Ks |-> "none"] /\ fsA = [k \in Ks |-> FALSE]

Active == {k \in Ks : act[k]}

(* ---- stop *)
Told(k) == (rdy[k] /\ w[k] = "run") => seen[k]
StopCall == ssA' = TRUE /\ UNCHANGED <<ssB, eV, w, kd, ret, act, was, lV, fV>>
StopRet == ssA /\ ssB' = TRUE /\ (\A k \in Ks : Told(k)) /\ UNCHANGED <<ssA, eV, w, kd, ret, act, was, lV, fV>>

(* ---- on_empty *)
EmptyCall(j) == es[j] = "idle" /\ es' = [es EXCEPT ![j] = "call"] /\ UNCHANGED <<ssA, ssB, eret, w, kd, ret, act, was, lV, fV>>
EmptyLin(j) ==
  /\ es[j] = "call" /\ es' = [es EXCEPT ![j] = IF Active = {} THEN "inl" ELSE "reg"]
  /\ UNCHANGED <<ssA, ssB, eret, w, kd, ret, act, was, lV, fV>>
(* the sender given to when_empty starts only then *)
EmptyRun(j) ==
  /\ es[j] \in {"inl", "rdy"} /\ es' = [es EXCEPT ![j] = "run"]
  /\ UNCHANGED <<ssA, ssB, eret, w, kd, ret, act, was, lV, fV>>
EmptyDone(j) ==
  /\ es[j] \in {"inl", "rdy", "run"} /\ es' = [es EXCEPT ![j] = "done"]
  /\ UNCHANGED <<ssA, ssB, eret, w, kd, ret, act, was, lV, fV>>
EmptyRet(j) ==
  /\ es[j] \in {"reg", "rdy", "run", "done"} /\ eret' = [eret EXCEPT ![j] = TRUE]
  /\ UNCHANGED <<ssA, ssB, es, w, kd, ret, act, was, lV, fV>>
Gone ==
  /\ Active = {} /\ \A j \in Js : es[j] \in {"idle", "done"}
  /\ UNCHANGED vars

(* ---- work *)
WorkCall(k, kind) ==
  /\ w[k] = "idle" /\ w' = [w EXCEPT ![k] = "call"] /\ kd' = [kd EXCEPT ![k] = kind]
  /\ UNCHANGED <<ssA, ssB, eV, ret, act, was, lV, fV>>
Connect(k) ==
  /\ w[k] = "call" /\ ~live[k] /\ live' = [live EXCEPT ![k] = TRUE]
  /\ IF kd[k] = "nest" THEN fs[k] = "con" ELSE ~ret[k]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, rdy, seen, res, fV>>
Inc(k) ==
  /\ w[k] = "call" /\ live[k] /\ ~was[k] /\ act' = [act EXCEPT ![k] = TRUE] /\ was' = [was EXCEPT ![k] = TRUE]
  /\ IF kd[k] = "nest" THEN fs[k] = "start" ELSE ~ret[k]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, lV, fV>>
WorkThrow(k) ==
  /\ w[k] = "call" /\ ~live[k] /\ ~act[k] /\ w' = [w EXCEPT ![k] = "fin"] /\ ret' = [ret EXCEPT ![k] = TRUE]
  /\ UNCHANGED <<ssA, ssB, eV, kd, act, was, lV, fV>>
WorkRet(k) ==
  /\ ~ret[k] /\ ret' = [ret EXCEPT ![k] = TRUE]
  /\ kd[k] # "nest" => w[k] \in {"run", "fin"}
  /\ fs' = [fs EXCEPT ![k] = IF kd[k] = "spawn" THEN "none" ELSE "held"]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, act, was, lV, fsA>>
LeafStart(k) ==
  /\ w[k] = "call" /\ act[k] /\ w' = [w EXCEPT ![k] = "run"]
  /\ UNCHANGED <<ssA, ssB, eV, kd, ret, act, was, lV, fV>>
LeafReady(k) ==
  /\ rdy' = [rdy EXCEPT ![k] = TRUE] /\ w[k] \in {"run", "fin"}
  /\ (ssB /\ w[k] = "run") => seen[k]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, live, seen, res, fV>>
LeafUnready(k) ==
  /\ w[k] = "run" /\ rdy' = [rdy EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, live, seen, res, fV>>
LeafStop(k) ==
  /\ ssA /\ w[k] = "run" /\ live[k] /\ ~seen[k] /\ seen' = [seen EXCEPT ![k] = TRUE]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, live, rdy, res, fV>>
LeafDone(k, c, v) ==
  /\ w[k] = "run" /\ live[k] /\ w' = [w EXCEPT ![k] = "fin"] /\ res' = [res EXCEPT ![k] = <<c, v>>]
  /\ UNCHANGED <<ssA, ssB, eV, kd, ret, act, was, live, rdy, seen, fV>>
Over(k) ==
  CASE kd[k] = "spawn" -> w[k] = "fin"
    [] kd[k] = "future" -> w[k] = "fin" /\ fs[k] \in {"done", "drop", "gone"}
    [] OTHER -> fs[k] \in {"drop", "gone"} /\ w[k] \in {"call", "fin"}
LeafDes(k) ==
  /\ live[k] /\ Over(k) /\ live' = [live EXCEPT ![k] = FALSE]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, rdy, seen, res, fV>>
(* the completion has been delivered (a future's: stored, or nobody wants it) *)
Delivered(k) ==
  /\ w[k] = "fin"
  /\ kd[k] = "spawn" => ~live[k]
  /\ kd[k] = "nest" => fs[k] \in {"done", "drop", "gone"}
  /\ kd[k] = "future" => (fs[k] = "gone" => ~live[k])
Dec(k) ==
  /\ act[k] /\ Delivered(k) /\ act' = [act EXCEPT ![k] = FALSE]
  /\ es' = IF Active = {k} THEN [j \in Js |-> IF es[j] = "reg" THEN "rdy" ELSE es[j]] ELSE es
  /\ UNCHANGED <<ssA, ssB, eret, w, kd, ret, was, lV, fV>>

(* ---- futures and nested senders *)
FutConnect(k) == fs[k] = "held" /\ fs' = [fs EXCEPT ![k] = "con"] /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutThrow(k) == fs[k] = "con" /\ ~live[k] /\ fs' = [fs EXCEPT ![k] = "gone"] /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutStart(k) == fs[k] = "con" /\ live[k] /\ fs' = [fs EXCEPT ![k] = "start"] /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutDone(k, c, v) ==
  /\ fs[k] = "start" /\ fs' = [fs EXCEPT ![k] = "done"] /\ w[k] = "fin" /\ live[k]
  /\ \/ <<c, v>> = res[k]
     \/ kd[k] = "future" /\ fsA[k] /\ c = "s"
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutDropCall(k) ==
  /\ fs[k] \in {"held", "con", "done"} /\ fs' = [fs EXCEPT ![k] = "drop"]
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutDropRet(k) ==
  /\ fs[k] = "drop" /\ fs' = [fs EXCEPT ![k] = "gone"] /\ (kd[k] = "nest" => ~live[k])
  /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fsA>>
FutStop(k) == fsA' = [fsA EXCEPT ![k] = TRUE] /\ UNCHANGED <<ssA, ssB, eV, w, kd, ret, act, was, lV, fs>>

(* ---- properties *)
RunningCounts == \A k \in Ks : w[k] = "run" => act[k]
CountsOnce == \A k \in Ks : act[k] => was[k]
NothingLeft == \A k \in Ks : (was[k] /\ ~act[k]) => w[k] = "fin" /\ (live[k] => kd[k] # "spawn")
(* a waiter becomes ready only at an instant at which nothing is active *)
EmptyMeansEmpty == [][\A j \in Js : (es[j] \notin {"rdy", "inl"} /\ es'[j] \in {"rdy", "inl"}) => {k \in Ks : act'[k]} = {}]_vars
EmptyStays == [][\A j \in Js : es[j] = "done" => es'[j] = "done"]_vars
=============================================================================
