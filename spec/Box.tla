---------------------------------- MODULE Box ----------------------------------
(* Closed intervals as pairs of rationals and infinities, empty when the ends are     *)
(* crossed, and boxes as sequences of intervals: the relations between the sets of     *)
(* points they denote.                                                                 *)
EXTENDS Enclosure
Emp(i) == RLt(i[2],i[1])
BEmp(b) == \E k \in 1..Len(b) : Emp(b[k])
Pt1(x) == <<x,x>>
ISubset(a,b) == Emp(a) \/ (~Emp(b) /\ RLe(b[1],a[1]) /\ RLe(a[2],b[2]))
IIntersect(a,b) == ~Emp(a) /\ ~Emp(b) /\ RLe(a[1],b[2]) /\ RLe(b[1],a[2])
\* the interiors meet, a point counting as its own interior
IOverlap(a,b) == ~Emp(a) /\ ~Emp(b) /\ RLt(a[1],b[2]) /\ RLt(b[1],a[2])
IInside(a,b) == Emp(a) \/ (~Emp(b) /\ RLt(b[1],a[1]) /\ RLt(a[2],b[2]))
IEqual(a,b) == (Emp(a) /\ Emp(b)) \/ (REq(a[1],b[1]) /\ REq(a[2],b[2]))
Rel1(f,a,b) ==
  CASE f = "subset" -> ISubset(a,b) [] f = "superset" -> ISubset(b,a)
    [] f = "intersect" -> IIntersect(a,b) [] f \in {"disjoint","separated"} -> ~IIntersect(a,b)
    [] f = "overlap" -> IOverlap(a,b) [] f = "inside" -> IInside(a,b) [] f = "covers" -> IInside(b,a)
    [] f \in {"equal","eq"} -> IEqual(a,b) [] f = "ne" -> ~IEqual(a,b)
    [] f = "contains" -> ISubset(b,a)
    [] f = "empty" -> Emp(a) [] f = "bounded" -> Emp(a) \/ (RIsFin(a[1]) /\ RIsFin(a[2])) [] f = "singleton" -> REq(a[1],a[2])
Some == {"disjoint","separated","empty","ne"}      \* one component decides
Rel(f,a,b) == IF f \in Some THEN \E k \in 1..Len(a) : Rel1(f,a[k],b[k]) ELSE \A k \in 1..Len(a) : Rel1(f,a[k],b[k])
Inter(a,b) == [k \in 1..Len(a) |-> IMeet(a[k],b[k])]
Hull(a,b) == [k \in 1..Len(a) |-> IHull(a[k],b[k])]
RECURSIVE Prod(_,_,_)
Prod(f,b,k) == IF k > Len(b) THEN One ELSE RMul(RSub(b[k][2],b[k][1]),Prod(f,b,k+1))
RECURSIVE SumW(_,_)
SumW(b,k) == IF k > Len(b) THEN Zero ELSE RAdd(RSub(b[k][2],b[k][1]),SumW(b,k+1))
WidthK(b,k) == RSub(b[k][2],b[k][1])
MaxW(b) == LET S == {WidthK(b,k) : k \in 1..Len(b)} IN CHOOSE w \in S : \A v \in S : RLe(v,w)
=================================================================================
