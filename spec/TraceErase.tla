----------------------------- MODULE TraceErase -----------------------------
EXTENDS TraceLib
VARIABLES sl
Slots == 1..4
S == INSTANCE Erase
TraceInit == TraceLibInit /\ S!Init
Th == Ev.th = 1
Live == Cardinality({s \in Slots : sl'[s].st = "full"})
Step(A) == A /\ Ev.lv = Live
TraceNext ==
  \/ IsEvent("def") /\ Step(S!Default(Ev.s))
  \/ IsEvent("make") /\ Step(S!Make(Ev.s, Ev.k, Ev.v, Th))
  \/ IsEvent("copy") /\ Step(S!Copy(Ev.s, Ev.o, Th))
  \/ IsEvent("move") /\ Step(S!Move(Ev.s, Ev.o))
  \/ IsEvent("set") /\ Step(S!Set(Ev.s, Ev.k, Ev.v, Th))
  \/ IsEvent("casg") /\ Step(S!CopyAssign(Ev.s, Ev.o, Th))
  \/ IsEvent("masg") /\ Step(S!MoveAssign(Ev.s, Ev.o))
  \/ IsEvent("swap") /\ Step(S!Swap(Ev.s, Ev.o))
  \/ IsEvent("del") /\ Step(S!Delete(Ev.s))
  \/ IsEvent("eq") /\ Step(S!Equal(Ev.s, Ev.o, Ev.r = 1))
  \/ IsEvent("look") /\ Step(S!Look(Ev.s, Ev.k, Ev.v))
  \/ IsEvent("emp") /\ Step(S!IsEmpty(Ev.s, Ev.r = 1))
  \/ IsEvent("take") /\ Step(S!Take(Ev.s, Ev.k, Ev.v))
  \/ IsEvent("end") /\ Ev.live = 0 /\ S!Live = 0 /\ UNCHANGED sl
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, sl>>
=============================================================================
