------------------------------ MODULE TraceHeap ------------------------------
EXTENDS TraceLib
VARIABLES in, key
Nodes == 1..40
Keys == 0..1000
S == INSTANCE Heap
TraceInit == TraceLibInit /\ S!Init
TraceNext ==
  \/ IsEvent("ins") /\ S!Insert(Ev.n, Ev.k)
  \/ IsEvent("era") /\ S!Erase(Ev.n, Ev.b = 1)
  \/ IsEvent("pop") /\ S!PopFront(Ev.n)
  \/ IsEvent("front") /\ S!Front(Ev.n)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, in, key>>
=============================================================================
