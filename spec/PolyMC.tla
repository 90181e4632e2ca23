--------------------------------- MODULE PolyMC ---------------------------------
(* Every history of a sorted expansion over a few monomials, for both orders:       *)
(* it stays sorted and without duplicates, and a lookup gives the last value         *)
(* written.  And, over all small monomials and polynomials, the orders are strict     *)
(* total orders, MNext is the successor, and the algebra obeys the ring laws.         *)
EXTENDS Expansion
CONSTANTS MaxLen
Mono == [1..2 -> 0..2]
Small == [1..2 -> 0..1]
Coeffs == {"1","-2"}
VARIABLES t, s, m, n
vars == <<t,s,m,n>>
Init == t \in {"graded","rlex"} /\ s = <<>> /\ m = <<>> /\ n = 0
SetOp(a,c) == s' = SetS(t,s,a,c) /\ m' = [x \in (DOMAIN m) \cup {a} |-> IF x = a THEN c ELSE m[x]]
EraseOp(k) == s' = RemAt(s,k) /\ m' = [x \in (DOMAIN m) \ {s[k][1]} |-> m[x]]
Next == n < MaxLen /\ n' = n+1 /\ t' = t /\ ((\E a \in Small, c \in Coeffs : SetOp(a,c)) \/ \E k \in 1..Len(s) : EraseOp(k))
Spec == Init /\ [][Next]_vars
Less(a,b) == Ord(t,a,b)
Sorted == StrictBy(s,Less)
LastWritten == \A a \in Small : LET i == Find(s,a) IN IF i = 0 THEN a \notin DOMAIN m ELSE a \in DOMAIN m /\ m[a] = s[i][2]
Big == {a \in [1..3 -> 0..4] : Deg(a) <= 4}
ASSUME \A a \in Big : Deg(a) <= 3 => IsNext(a,MNext(a),Big)
Total(L(_,_)) == \A a, b \in Mono : (a = b \/ L(a,b) \/ L(b,a)) /\ ~(L(a,b) /\ L(b,a)) /\ \A c \in Mono : L(a,b) /\ L(b,c) => L(a,c)
ASSUME Total(GradedLess) /\ Total(LexLess) /\ Total(RLexLess)
Polys == {[a \in S |-> IF a[1] > a[2] THEN "2" ELSE "-1/3"] : S \in {T \in SUBSET Small : Cardinality(T) <= 2}}
ASSUME \A p, q \in Polys : /\ PEq(PAdd(p,q),PAdd(q,p)) /\ PEq(PMul(p,q),PMul(q,p))
                           /\ \A k \in 1..2 : PEq(PDer(PMul(p,q),k),PAdd(PMul(PDer(p,k),q),PMul(p,PDer(q,k)))) /\ PEq(PDer(PAnti(p,k),k),p)
                           /\ \A x \in {<<"2","-1/2">>,<<"0","3">>} : REq(PEval(PMul(p,q),x),RMul(PEval(p,x),PEval(q,x))) /\ REq(PEval(PComp(p,<<q,p>>,2),x),PEval(p,<<PEval(q,x),PEval(p,x)>>))
ASSUME \A p, q, r \in Polys : PEq(PMul(p,PAdd(q,r)),PAdd(PMul(p,q),PMul(p,r)))
=================================================================================
