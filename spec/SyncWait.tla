------------------------------- MODULE SyncWait -------------------------------
(* sync_wait: the calling thread connects and starts the sender, runs the tasks which
   are scheduled on the loop it provides, and returns when, and with what, the sender
   completed, after having destroyed the operation.  Calls may nest (a task of the loop
   may itself wait) and run concurrently on several threads.
   Channels: "v" value, "e" error, "s" stopped; "x" an exception thrown by connecting,
   or by copying the values into the result.                                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES w,   \* per wait: [st, t, c, v]; st: no called con run done gone ret
          tk   \* per task: [st, w]; st: no on run
vars == <<w, tk>>

Waits == DOMAIN w
Tasks == DOMAIN tk
Fresh == [st |-> "no", t |-> -1, c |-> "", v |-> <<>>, n |-> 0]

InitWith(nw, nt) ==
  /\ w = [i \in 1..nw |-> Fresh]
  /\ tk = [j \in 1..nt |-> [st |-> "no", w |-> 0]]

Active(i) == w[i].st \notin {"no", "ret"}
Innermost(i, t) == \A k \in Waits : Active(k) /\ w[k].t = t => w[k].n <= w[i].n

Call(i, t) ==
  /\ w[i].st = "no"
  /\ w' = [w EXCEPT ![i].st = "called", ![i].t = t, ![i].n = 1 + Cardinality({k \in Waits : w[k].st # "no"})]
  /\ UNCHANGED tk
Connect(i, t) ==
  /\ w[i].st = "called" /\ w[i].t = t
  /\ w' = [w EXCEPT ![i].st = "con"] /\ UNCHANGED tk
ConnectThrows(i, t, v) ==
  /\ w[i].st = "called" /\ w[i].t = t
  /\ w' = [w EXCEPT ![i].st = "gone", ![i].c = "x", ![i].v = v] /\ UNCHANGED tk
Start(i, t) ==
  /\ w[i].st = "con" /\ w[i].t = t
  /\ w' = [w EXCEPT ![i].st = "run"] /\ UNCHANGED tk
(* a task is started on the loop of wait i, by any thread, while that runs *)
TaskStart(i, j) ==
  /\ w[i].st = "run" /\ tk[j].st = "no"
  /\ tk' = [tk EXCEPT ![j] = [st |-> "on", w |-> i]] /\ UNCHANGED w
(* the waiting thread runs it *)
TaskRun(j, t) ==
  /\ tk[j].st = "on" /\ w[tk[j].w].t = t /\ w[tk[j].w].st \in {"run", "done"}
  /\ Innermost(tk[j].w, t)
  /\ tk' = [tk EXCEPT ![j].st = "run"] /\ UNCHANGED w
Complete(i, c, v, t) ==
  /\ w[i].st = "run"
  /\ w' = [w EXCEPT ![i].st = "done", ![i].c = c, ![i].v = v] /\ UNCHANGED tk
(* copying the values into the result throws *)
CopyThrows(i, v) ==
  /\ w[i].st = "done" /\ w[i].c = "v"
  /\ w' = [w EXCEPT ![i].c = "x", ![i].v = v] /\ UNCHANGED tk
Destroy(i, t) ==
  /\ w[i].st = "done" /\ w[i].t = t
  /\ \A j \in Tasks : tk[j].w = i => tk[j].st # "on"
  /\ w' = [w EXCEPT ![i].st = "gone"] /\ UNCHANGED tk
(* what the caller gets *)
Ret(i, c, v, t) ==
  /\ w[i].st = "gone" /\ w[i].t = t /\ w[i].c = c /\ w[i].v = v /\ Innermost(i, t)
  /\ w' = [w EXCEPT ![i].st = "ret"] /\ UNCHANGED tk
(* nothing of a wait goes on when it has returned *)
NoLate == \A j \in Tasks : tk[j].st = "on" => w[tk[j].w].st \in {"run", "done"}
Answered == \A i \in Waits : w[i].st = "ret" => w[i].c # ""
Quiet == \A i \in Waits : w[i].st \in {"no", "ret"}
=============================================================================
