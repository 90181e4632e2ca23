--------------------------------- MODULE LRUMC ---------------------------------
(* The algorithm of the code (a map from keys to ages) refines the abstract cache: *)
(* TLC explores all histories of put and get.                                      *)
EXTENDS LRU, FiniteSets
CONSTANTS Keys, Max
VARIABLES c, age          \* abstract cache; the code's ages (-1: absent)
vars == <<c,age>>
Init == c = <<>> /\ age = [k \in Keys |-> -1]
Size == Cardinality({k \in Keys : age[k] >= 0})
DoPut(k) == /\ age[k] = -1
            /\ c' = Put(c,k,0,Max)
            /\ LET old == IF Size < Max THEN {} ELSE {j \in Keys : age[j] = Max-1}
               IN age' = [j \in Keys |-> IF j = k THEN 0 ELSE IF j \in old THEN -1 ELSE IF age[j] >= 0 THEN age[j]+1 ELSE -1]
DoGet(k) == /\ age[k] >= 0
            /\ c' = Get(c,k)
            /\ age' = [j \in Keys |-> IF j = k THEN 0 ELSE IF age[j] >= 0 /\ age[j] < age[k] THEN age[j]+1 ELSE age[j]]
Next == \E k \in Keys : DoPut(k) \/ DoGet(k)
Spec == Init /\ [][Next]_vars
Refines == \A k \in Keys : age[k] = Age(c,k)
Bounded == Len(c) <= Max /\ Size = Len(c)
Distinct == \A i,j \in 1..Len(c) : c[i][1] = c[j][1] => i = j
================================================================================
