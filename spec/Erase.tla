------------------------------- MODULE Erase -------------------------------
(* Owning type-erasing wrappers as values: a wrapper is nothing or holds one object; a
   moved-from wrapper is empty.  Objects are constructed and destroyed with the
   wrapper which holds them, whether they are stored inside it or on the heap.  An
   operation in which a constructor of the held object (or an allocation) throws leaves
   what there was (or, for an assignment of a plain object, nothing) and leaks nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sl  \* per slot: [st |-> "none" | "empty" | "full", k, v]: kind and value held
vars == <<sl>>
CONSTANTS Slots

None == [st |-> "none", k |-> 0, v |-> 0]
Empty == [st |-> "empty", k |-> 0, v |-> 0]
Full(k, v) == [st |-> "full", k |-> k, v |-> v]
Init == sl = [s \in Slots |-> None]

Has(s) == sl[s].st # "none"
Live == Cardinality({s \in Slots : sl[s].st = "full"})
Throws(k) == k >= 3     \* kinds whose constructors may throw
CopyThrows(k) == TRUE   \* (memory may run out)

Put(s, x) == sl' = [sl EXCEPT ![s] = x]

Default(s) == sl[s].st = "none" /\ Put(s, Empty)
Make(s, k, v, thrown) == sl[s].st = "none" /\ Put(s, IF thrown THEN None ELSE Full(k, v))
Copy(d, s, thrown) == /\ sl[d].st = "none" /\ Has(s)
                      /\ thrown => sl[s].st = "full"
                      /\ Put(d, IF thrown THEN None ELSE sl[s])
Move(d, s) == /\ sl[d].st = "none" /\ Has(s)
              /\ sl' = [sl EXCEPT ![d] = sl[s], ![s] = Empty]
Set(s, k, v, thrown) == /\ Has(s)
                        /\ IF thrown THEN sl' = sl \/ Put(s, Empty) ELSE Put(s, Full(k, v))
CopyAssign(d, s, thrown) == /\ Has(d) /\ Has(s)
                            /\ thrown => sl[s].st = "full" /\ d # s
                            /\ IF thrown THEN sl' = sl ELSE Put(d, sl[s])
MoveAssign(d, s) == /\ Has(d) /\ Has(s)
                    /\ IF d = s THEN sl' = sl ELSE sl' = [sl EXCEPT ![d] = sl[s], ![s] = Empty]
Swap(a, b) == Has(a) /\ Has(b) /\ sl' = [sl EXCEPT ![a] = sl[b], ![b] = sl[a]]
Delete(s) == Has(s) /\ Put(s, None)
Same(a, b) == sl[a] = sl[b]
Equal(a, b, r) == Has(a) /\ Has(b) /\ r = Same(a, b) /\ UNCHANGED vars
(* the held object, as seen through the wrapper; 0: empty *)
Look(s, k, v) == Has(s) /\ sl[s].k = k /\ sl[s].v = v /\ UNCHANGED vars
IsEmpty(s, r) == Has(s) /\ r = (sl[s].st = "empty") /\ UNCHANGED vars
Take(s, k, v) == sl[s].st = "full" /\ sl[s].k = k /\ sl[s].v = v /\ Put(s, None)
=============================================================================
