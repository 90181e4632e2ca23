------------------------------- MODULE Expansion -------------------------------
(* An expansion: a list of terms <<monomial,coefficient>>, plain or kept sorted in  *)
(* graded or reverse lexicographic order, with its editing operations.              *)
EXTENDS Poly
Find(s,a) == LET I == {i \in 1..Len(s) : s[i][1] = a} IN IF I = {} THEN 0 ELSE Min(I)
SetT(s,a,c) == LET i == Find(s,a) IN IF i = 0 THEN Append(s,<<a,c>>) ELSE [s EXCEPT ![i] = <<a,c>>]
Ord(t,a,b) == IF t = "graded" THEN GradedLess(a,b) ELSE RLexLess(a,b)
\* place of a in a sorted list
Pos(t,s,a) == Cardinality({i \in 1..Len(s) : Ord(t,s[i][1],a)})
InsAt(s,k,x) == SubSeq(s,1,k) \o <<x>> \o SubSeq(s,k+1,Len(s))
SetS(t,s,a,c) == LET i == Find(s,a) IN IF i = 0 THEN InsAt(s,Pos(t,s,a),<<a,c>>) ELSE [s EXCEPT ![i] = <<a,c>>]
RemAt(s,k) == SubSeq(s,1,k-1) \o SubSeq(s,k+1,Len(s))
SortedBy(s,L(_,_)) == \A i \in 1..(Len(s)-1) : ~L(s[i+1][1],s[i][1])
StrictBy(s,L(_,_)) == \A i \in 1..(Len(s)-1) : L(s[i][1],s[i+1][1])
================================================================================
