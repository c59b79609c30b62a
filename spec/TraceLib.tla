------------------------------ MODULE TraceLib ------------------------------
(* Shared part of every trace specification.  The file named by the environment
   variable TRACES holds one recorded execution of the implementation per line:
     {"scn":..,"rp":..,"cfg":{..},"ev":[{"e":"name","t":tid,...},...]}
   A trace specification conjoins IsEvent("name") with an action of the system
   specification; a trace is accepted iff some behaviour of the specification
   consumes all of its events.  Events that no action mentions ("deadlock",
   "livelock", "crash", "race", "uaf", "leak", "doublefree", ...) are rejected.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<tr, l>>

TraceLibInit == tr \in 1..Len(Traces) /\ l = 1

Cfg == Traces[tr].cfg
Evs == Traces[tr].ev
More == l <= Len(Evs)
Ev == Evs[l]

IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ tr' = tr
Silent == More /\ UNCHANGED tvars

(* CONSTRAINT: remembers how far each trace was matched.  Needs -workers 1. *)
Reached == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Rejected == {i \in 1..Len(Traces) : TLCGet(i) # Len(Traces[i].ev) + 1}
TraceAccepted ==
  /\ PrintT(<<"TRACES", Len(Traces), "REJECTED", Cardinality(Rejected)>>)
  /\ \A i \in Rejected : PrintT(<<"REJECT", i, TLCGet(i)>>)
=============================================================================
