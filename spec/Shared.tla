------------------------------- MODULE Shared -------------------------------
(* split, ensure_started, start_detached: one operation, shared by handles
   (sender copies which become operation states).                             *)
EXTENDS Integers, FiniteSets
CONSTANT Hs
VARIABLES
  kd, mk,      \* kind; the call which makes it: idle call ret thr
  mem,         \* size of the allocation
  live, w, rdy, seen, res,  \* the operation; idle run fin
  hs,          \* none held con start done drop gone
  out,         \* a consumer which has completed with stop no longer takes part
  fsA
lV == <<live, w, rdy, seen, res>>
vars == <<kd, mk, mem, live, w, rdy, seen, res, hs, out, fsA>>
Init ==
  /\ kd = "" /\ mk = "idle" /\ mem = 0 /\ live = FALSE /\ w = "idle" /\ rdy = FALSE /\ seen = FALSE
  /\ res = <<"", 0>> /\ hs = [h \in Hs |-> "none"] /\ out = [h \in Hs |-> FALSE] /\ fsA = [h \in Hs |-> FALSE]

Making == mk = "call"
(* handles which certainly still take part / may still take part *)
Present == {h \in Hs : hs[h] \in {"held", "con"} \/ (hs[h] = "start" /\ ~fsA[h]) \/ (hs[h] = "done" /\ ~out[h])}
Leaving == {h \in Hs : hs[h] \in {"held", "con", "start", "drop"} \/ (hs[h] = "done" /\ ~out[h])}

MkCall(kind) == mk = "idle" /\ mk' = "call" /\ kd' = kind /\ UNCHANGED <<mem, lV, hs, out, fsA>>
Alloc(n) == Making /\ mem = 0 /\ n > 0 /\ ~live /\ mem' = n /\ UNCHANGED <<kd, mk, lV, hs, out, fsA>>
Connect == Making /\ ~live /\ w = "idle" /\ mem > 0 /\ live' = TRUE /\ UNCHANGED <<kd, mk, mem, w, rdy, seen, res, hs, out, fsA>>
MkRet(h) ==
  /\ Making /\ mk' = "ret"
  /\ CASE kd = "split" -> live /\ w = "idle" [] OTHER -> w \in {"run", "fin"}
  /\ hs' = [hs EXCEPT ![h] = IF kd = "detached" THEN "none" ELSE "held"]
  /\ UNCHANGED <<kd, mem, lV, out, fsA>>
MkThrow == Making /\ mk' = "thr" /\ ~live /\ mem = 0 /\ w = "idle" /\ UNCHANGED <<kd, mem, lV, hs, out, fsA>>
Copy(h) ==
  /\ kd = "split" /\ hs[h] = "none" /\ \E i \in Hs : hs[i] = "held" /\ hs' = [hs EXCEPT ![h] = "held"]
  /\ UNCHANGED <<kd, mk, mem, lV, out, fsA>>

(* nobody takes part any more, and the work knows *)
Told == (rdy /\ w = "run") => seen
(* started once: at once, or when the first consumer is started *)
LeafStart ==
  /\ live /\ w = "idle" /\ w' = "run"
  /\ IF kd = "split" THEN \E h \in Hs : hs[h] = "start" ELSE Making
  /\ UNCHANGED <<kd, mk, mem, live, rdy, seen, res, hs, out, fsA>>
LeafReady ==
  /\ w \in {"run", "fin"} /\ rdy' = TRUE
  /\ (kd # "detached" /\ w = "run" /\ ~Making /\ Leaving = {}) => seen
  /\ UNCHANGED <<kd, mk, mem, live, w, seen, res, hs, out, fsA>>
LeafUnready == w = "run" /\ rdy' = FALSE /\ UNCHANGED <<kd, mk, mem, live, w, seen, res, hs, out, fsA>>
(* told to stop only when no consumer is left *)
LeafStop ==
  /\ kd # "detached" /\ w = "run" /\ ~seen /\ seen' = TRUE /\ ~Making /\ Present = {}
  /\ UNCHANGED <<kd, mk, mem, live, w, rdy, res, hs, out, fsA>>
LeafDone(c, v) ==
  /\ w = "run" /\ live /\ w' = "fin" /\ res' = <<c, v>>
  /\ UNCHANGED <<kd, mk, mem, live, rdy, seen, hs, out, fsA>>
LeafDes ==
  /\ live /\ w # "run" /\ live' = FALSE
  /\ IF kd = "detached" THEN w = "fin" ELSE Present = {} /\ ~Making /\ (\A h \in Hs : hs[h] = "start" => fsA[h])
  /\ UNCHANGED <<kd, mk, mem, w, rdy, seen, res, hs, out, fsA>>
Dealloc(n) == mem = n /\ n > 0 /\ ~live /\ mem' = 0 /\ UNCHANGED <<kd, mk, lV, hs, out, fsA>>

HConnect(h) == hs[h] = "held" /\ hs' = [hs EXCEPT ![h] = "con"] /\ UNCHANGED <<kd, mk, mem, lV, out, fsA>>
HStart(h) == hs[h] = "con" /\ hs' = [hs EXCEPT ![h] = "start"] /\ UNCHANGED <<kd, mk, mem, lV, out, fsA>>
(* the common result, or stopped when its own receiver asked for that *)
HDone(h, c, v) ==
  /\ hs[h] = "start" /\ hs' = [hs EXCEPT ![h] = "done"]
  /\ \/ w = "fin" /\ <<c, v>> = res /\ live /\ UNCHANGED out
     \/ fsA[h] /\ c = "s" /\ out' = [out EXCEPT ![h] = TRUE]
        /\ (Leaving \ {h} = {} => Told)
  /\ UNCHANGED <<kd, mk, mem, lV, fsA>>
HDropCall(h) ==
  /\ hs[h] \in {"held", "con", "done"} /\ hs' = [hs EXCEPT ![h] = "drop"]
  /\ UNCHANGED <<kd, mk, mem, lV, out, fsA>>
HDropRet(h) ==
  /\ hs[h] = "drop" /\ hs' = [hs EXCEPT ![h] = "gone"]
  /\ (Leaving \ {h} = {} => Told)
  /\ UNCHANGED <<kd, mk, mem, lV, out, fsA>>
HStopCall(h) == fsA' = [fsA EXCEPT ![h] = TRUE] /\ UNCHANGED <<kd, mk, mem, lV, hs, out>>
(* a stop request cancels a consumer at once *)
HStopRet(h) == fsA[h] /\ UNCHANGED vars
End == ~live /\ mem = 0 /\ Leaving = {} /\ UNCHANGED vars

(* ---- properties *)
NoUseAfter == (w = "run" \/ \E h \in Hs : hs[h] \in {"held", "con"} \/ (hs[h] = "start" /\ ~fsA[h])) => live
Once == [][w = "fin" => (w' = "fin" /\ res' = res)]_vars
SameForAll == \A h \in Hs : (hs[h] = "done" /\ ~out[h]) => w = "fin"
=============================================================================
