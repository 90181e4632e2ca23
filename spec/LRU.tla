---------------------------------- MODULE LRU ----------------------------------
(* A least-recently-used cache: the sequence of its entries <<key,value>> from the *)
(* most to the least recently used.                                               *)
EXTENDS Integers, Sequences
Idx(c,k) == IF \E i \in 1..Len(c) : c[i][1] = k THEN CHOOSE i \in 1..Len(c) : c[i][1] = k ELSE 0
Has(c,k) == Idx(c,k) # 0
Age(c,k) == Idx(c,k)-1                                   \* -1 if absent
Without(c,i) == SubSeq(c,1,i-1) \o SubSeq(c,i+1,Len(c))
Get(c,k) == LET i == Idx(c,k) IN <<c[i]>> \o Without(c,i)
Put(c,k,v,max) == <<<<k,v>>>> \o (IF Len(c) < max THEN c ELSE SubSeq(c,1,max-1))
================================================================================
