-------------------------------- MODULE Jobs ---------------------------------
(* Work on an execution context (P17, P21, P22): plain and bulk operations.

   An operation that is started completes exactly once.  With a bulk part of size
   n its function is called for ranges of indices which do not overlap; a value
   completion needs every index 0..n-1 to have been covered and every call to have
   returned normally; an error completion carries the exception of one of the
   calls and comes after the last call has returned; a stopped completion needs a
   stop request and no call.  A stop request made before the start must be
   honoured if the context honours them (Must).  Calls and completions happen on
   the context's threads.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Jobs
VARIABLES j,          \* per job: see None
          gone        \* the context has been destroyed
vars == <<j, gone>>
None == [st |-> "idle", n |-> -1, w |-> 0, q |-> FALSE, cov |-> {}, run |-> {}, exc |-> {},
         sA |-> FALSE, sB |-> FALSE, pre |-> FALSE, ret |-> FALSE, bk |-> <<>>]
Init == j = [o \in Jobs |-> None] /\ gone = FALSE

Start(o, n, w, q) ==
  /\ ~gone /\ j[o].st = "idle"
  /\ j' = [j EXCEPT ![o].st = "on", ![o].n = n, ![o].w = w, ![o].q = q, ![o].pre = j[o].sB]
  /\ UNCHANGED gone
Ret(o) ==
  /\ ~gone /\ j[o].st # "idle" /\ ~j[o].ret
  /\ j' = [j EXCEPT ![o].ret = TRUE] /\ UNCHANGED gone
StopCall(o) == j' = [j EXCEPT ![o].sA = TRUE] /\ UNCHANGED gone
StopRet(o) == j[o].sA /\ j' = [j EXCEPT ![o].sB = TRUE] /\ UNCHANGED gone
Range(b, e) == b..(e - 1)
\* where: the thread is one of the context's; there: it is the one asked for
FnBegin(o, b, e, where, there, Must) ==
  /\ ~gone /\ j[o].st = "on" /\ where /\ (j[o].w > 0 => there)
  /\ 0 <= b /\ b <= e /\ e <= j[o].n
  /\ Range(b, e) \intersect j[o].cov = {}
  /\ j[o].pre => ~Must
  /\ j[o].q => /\ j[o].run = {} /\ j[o].cov = Range(0, b)
               /\ j[o].exc = {}
  /\ j' = [j EXCEPT ![o].cov = @ \union Range(b, e), ![o].run = @ \union {<<b, e>>}]
  /\ UNCHANGED gone
FnEnd(o, b, e, x) ==
  /\ ~gone /\ <<b, e>> \in j[o].run
  /\ j' = [j EXCEPT ![o].run = @ \ {<<b, e>>}, ![o].exc = IF x = 0 THEN @ ELSE @ \union {x}]
  /\ UNCHANGED gone
\* the backend of a type-erased scheduler ends the operation, with an outcome of its choice,
\* and asks for the stop token of the operation: r says whether stop was requested
BkDone(o, c, v) ==
  /\ ~gone /\ j[o].st = "on" /\ j[o].run = {} /\ j[o].bk = <<>>
  /\ j' = [j EXCEPT ![o].bk = <<c, v>>] /\ UNCHANGED gone
BkTok(o, has, r) ==
  /\ ~gone /\ j[o].st = "on" /\ has
  /\ r => j[o].sA
  /\ j[o].sB => r
  /\ UNCHANGED vars
Done(o, c, v, where, there, Must) ==
  /\ ~gone /\ j[o].st = "on" /\ j[o].run = {}
  \* w = -1: a sequence of items, which ends where it is if it is empty
  /\ where \/ (j[o].w = -1 /\ j[o].n = 0)
  /\ j[o].w > 0 => there
  /\ CASE j[o].bk # <<>> /\ j[o].exc = {} ->
            /\ c = j[o].bk[1]
            /\ v = CASE c = "v" -> 100 + o [] c = "e" -> j[o].bk[2] [] c = "s" -> 0
            /\ (c = "v" /\ j[o].n >= 0 => j[o].cov = Range(0, j[o].n))
       [] j[o].bk # <<>> /\ j[o].exc # {} /\ c # "e" -> c = j[o].bk[1] /\ c # "v"
       [] j[o].bk # <<>> /\ j[o].exc # {} /\ c = "e" ->
            v \in j[o].exc \/ (j[o].bk[1] = "e" /\ v = j[o].bk[2])
       [] c = "v" -> v = 100 + o /\ j[o].exc = {} /\ (j[o].n >= 0 => j[o].cov = Range(0, j[o].n)) /\ (j[o].pre => ~Must)
       [] c = "e" -> v \in j[o].exc
       [] c = "s" -> j[o].sA /\ j[o].cov = {} /\ j[o].exc = {}
  /\ j' = [j EXCEPT ![o].st = "done"] /\ UNCHANGED gone
Quiet == \A o \in Jobs : j[o].st \in {"idle", "done"}
Gone == Quiet /\ ~gone /\ gone' = TRUE /\ UNCHANGED j
End == Quiet /\ UNCHANGED vars
=============================================================================
