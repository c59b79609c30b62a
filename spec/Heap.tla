-------------------------------- MODULE Heap --------------------------------
(* The intrusive heap: a set of nodes with keys; front is a node of least key. *)
EXTENDS Integers, FiniteSets
CONSTANTS Nodes, Keys
VARIABLES in, key
vars == <<in, key>>
Init == in = {} /\ key = [n \in Nodes |-> 0]
Insert(n, k) == n \notin in /\ in' = in \cup {n} /\ key' = [key EXCEPT ![n] = k]
Erase(n, b) == b = (n \in in) /\ in' = in \ {n} /\ UNCHANGED key
Least(n) == n \in in /\ \A m \in in : key[n] <= key[m]
PopFront(n) == Least(n) /\ in' = in \ {n} /\ UNCHANGED key
Front(n) == (IF in = {} THEN n = 0 ELSE Least(n)) /\ UNCHANGED vars
Next == \E n \in Nodes : (\E k \in Keys : Insert(n, k)) \/ Erase(n, TRUE) \/ Erase(n, FALSE) \/ PopFront(n)
Spec == Init /\ [][Next]_vars
FrontExists == in # {} => \E n \in in : Least(n)
Sorted == [][\A n \in Nodes : PopFront(n) => \A m \in in' : key[n] <= key[m]]_vars
=============================================================================
