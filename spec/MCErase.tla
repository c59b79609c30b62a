------------------------------ MODULE MCErase ------------------------------
(* all histories of a few wrappers; every object is accounted for *)
EXTENDS Erase
CONSTANTS Kinds, Vals
VARIABLES made, lost   \* objects constructed / destroyed
mvars == <<sl, made, lost>>
MCInit == Init /\ made = 0 /\ lost = 0
LiveOf(f) == Cardinality({s \in Slots : f[s].st = "full"})
(* the least each step constructs and destroys *)
Step(A) == A /\ LET d == LiveOf(sl') - LiveOf(sl) IN
                  /\ made' = IF d > 0 THEN made + d ELSE made
                  /\ lost' = IF d < 0 THEN lost - d ELSE lost
Next ==
  \/ \E s \in Slots : Step(Default(s)) \/ Step(Delete(s))
  \/ \E s \in Slots, k \in Kinds, v \in Vals, th \in BOOLEAN :
       (th => Throws(k)) /\ (Step(Make(s, k, v, th)) \/ Step(Set(s, k, v, th)))
  \/ \E a, b \in Slots :
       \/ a # b /\ (Step(Move(a, b)) \/ Step(Copy(a, b, FALSE)) \/ Step(Copy(a, b, TRUE)))
       \/ Step(MoveAssign(a, b)) \/ Step(Swap(a, b)) \/ Step(CopyAssign(a, b, FALSE)) \/ Step(CopyAssign(a, b, TRUE))
Spec == MCInit /\ [][Next]_mvars
Bound == made + lost < 9
Accounted == made - lost = Live
(* moving and swapping neither make nor lose an object, and keep each one's value *)
Bag == [x \in Kinds \X Vals |-> Cardinality({s \in Slots : sl[s] = Full(x[1], x[2])})]
BagN == [x \in Kinds \X Vals |-> Cardinality({s \in Slots : sl'[s] = Full(x[1], x[2])})]
SwapKeeps == [][\A a, b \in Slots : Swap(a, b) \/ Move(a, b) => BagN = Bag]_sl
=============================================================================
