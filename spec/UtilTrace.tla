------------------------------- MODULE UtilTrace -------------------------------
(* Recorded histories of the cache (stateful: the trace must be a behaviour of LRU) *)
(* and of the containers (each event is an operation on mathematical objects).      *)
EXTENDS LRU, TraceBase, FiniteSets
VARIABLES l, cache, max
E == Trace[l]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Sorted(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
\* maps are written as k1,v1,k2,v2,... in increasing order of keys
MKeys(s) == {s[2*i-1] : i \in 1..(Len(s) \div 2)}
MVal(s,k) == s[2*(CHOOSE i \in 1..(Len(s) \div 2) : s[2*i-1] = k)]
IsMap(s,ks,F(_)) == MKeys(s) = ks /\ Len(s) = 2*Cardinality(ks) /\ (\A i \in 1..(Len(s) \div 2 - 1) : s[2*i-1] < s[2*i+1]) /\ \A k \in ks : MVal(s,k) = F(k)
IsSet(s,t) == ToSet(s) = t /\ Sorted(s)
B(x) == IF x THEN <<1>> ELSE <<0>>
LexLt(a,b) == \/ \E i \in 1..Len(b) : (i <= Len(a) /\ a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j])
              \/ Len(a) < Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
OkCon(e) == LET a == e.a b == e.b k == e.k r == e.r IN
  CASE e.f = "union" -> IsSet(r,ToSet(a) \cup ToSet(b))
    [] e.f = "minus" -> IsSet(r,ToSet(a) \ ToSet(b))
    [] e.f = "inter" -> IsSet(r,ToSet(a) \cap ToSet(b))
    [] e.f = "without" -> IsSet(r,ToSet(a) \ {k})
    [] e.f = "subset" -> r = B(ToSet(a) \subseteq ToSet(b))
    [] e.f = "disjoint" -> r = B(ToSet(a) \cap ToSet(b) = {})
    [] e.f = "in" -> r = B(k \in ToSet(a))
    [] e.f = "cat" -> r = a \o b
    [] e.f = "push" -> r = Append(a,k)
    [] e.f = "unique" -> r = B(Cardinality(ToSet(a)) = Len(a))
    [] e.f = "dups" -> IsSet(r,{x \in ToSet(a) : \E i,j \in 1..Len(a) : i # j /\ a[i] = x /\ a[j] = x})
    [] e.f = "set" -> IsSet(r,ToSet(a))
    [] e.f = "minsert" -> IsMap(r,MKeys(a) \cup {k},LAMBDA x : IF x \in MKeys(a) THEN MVal(a,x) ELSE b[1])
    [] e.f = "mset" -> IsMap(r,MKeys(a) \cup {k},LAMBDA x : IF x = k THEN b[1] ELSE MVal(a,x))
    [] e.f = "msame" -> r = a
    [] e.f = "mjoin" -> IsMap(r,MKeys(a) \cup MKeys(b),LAMBDA x : IF x \in MKeys(a) THEN MVal(a,x) ELSE MVal(b,x))
    [] e.f = "mrestrict" -> IsMap(r,MKeys(a) \cap ToSet(b),LAMBDA x : MVal(a,x))
    [] e.f = "mremove" -> IsMap(r,MKeys(a) \ ToSet(b),LAMBDA x : MVal(a,x))
    [] e.f = "mkeys" -> IsSet(r,MKeys(a))
    [] e.f = "mvalues" -> r = [i \in 1..(Len(a) \div 2) |-> a[2*i]]
    [] e.f = "mhas" -> r = B(k \in MKeys(a))
    [] e.f = "mget" -> r = IF k \in MKeys(a) THEN <<MVal(a,k)>> ELSE <<>>
    [] e.f = "asame" -> r = a
    [] e.f = "aresize" -> r = [i \in 1..k |-> IF i <= Len(a) THEN a[i] ELSE b[1]]
    [] e.f = "afill" -> r = [i \in 1..Len(a) |-> b[1]]
    [] e.f = "aeq" -> r = B(a = b)
    [] e.f = "ane" -> r = B(a # b)
    [] e.f = "aat" -> r = IF k < Len(a) THEN <<a[k+1]>> ELSE <<>>
    [] e.f = "agen" -> r = [i \in 1..k |-> 2*(i-1)]
    [] e.f = "wprefix" -> r = B(Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i])
    [] e.f = "wsub" -> r = B(\E o \in 0..(Len(b)-Len(a)) : \A i \in 1..Len(a) : a[i] = b[o+i])
    [] e.f = "wlt" -> r = B(LexLt(a,b))
    [] e.f = "wdrop" -> r = SubSeq(a,k+1,Len(a))
    [] e.f = "wback" -> r = SubSeq(a,1,Len(a)-1) \o b
    [] OTHER -> FALSE
\* the cache after the event, and whether the answer is right
After(e) == CASE e.f = "new" -> <<>>
              [] e.f = "put" -> IF Has(cache,e.k) THEN cache ELSE Put(cache,e.k,e.v,max)
              [] e.f = "get" -> IF Has(cache,e.k) THEN Get(cache,e.k) ELSE cache
              [] OTHER -> cache
OkLru(e,c2) == /\ CASE e.f = "new" -> TRUE
                    [] e.f = "put" -> e.r = IF Has(cache,e.k) THEN "exc" ELSE "ok"
                    [] e.f = "get" -> e.r = IF Has(cache,e.k) THEN cache[Idx(cache,e.k)][2] ELSE "exc"
                    [] e.f = "age" -> e.r = IF Has(cache,e.k) THEN ToString(Age(cache,e.k)) ELSE "exc"
                    [] e.f = "has" -> e.r = IF Has(cache,e.k) THEN "T" ELSE "F"
               /\ \A k \in 1..Len(e.o) : e.o[k] = Age(c2,k)
               /\ e.n = Len(c2) /\ e.m = IF e.f = "new" THEN e.k ELSE max
Init == l = 1 /\ cache = <<>> /\ max = 1
Next == /\ l <= TraceLen
        /\ IF E.ev = "lru"
           THEN /\ cache' = After(E) /\ max' = (IF E.f = "new" THEN E.k ELSE max)
                /\ Judge(l,OkLru(E,After(E)),"lru " \o E.f)
           ELSE Judge(l,OkCon(E),E.f) /\ UNCHANGED <<cache,max>>
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_<<l,cache,max>>
================================================================================
