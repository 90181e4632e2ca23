--------------------------------- MODULE BoxMC ---------------------------------
(* The relations of Box.tla, given by comparing ends, are the relations between the   *)
(* sets of points: checked for all pairs of boxes of up to two dimensions with ends     *)
(* among 0..M (empty ones included) over the lattice of halves, where nothing that       *)
(* these relations can distinguish is lost.                                             *)
EXTENDS Box, Integers, FiniteSets, Sequences
CONSTANT M
VARIABLES a, b
Ends == 0..M
Iv == {<<RInt(i),RInt(j)>> : i \in Ends, j \in Ends}
L1 == {RDiv(RInt(k),"2") : k \in -1..(2*M+1)}
In1(x,i) == RLe(i[1],x) /\ RLe(x,i[2])
\* interior; of a point, the point
Int1(x,i) == IF REq(i[1],i[2]) THEN REq(x,i[1]) ELSE RLt(i[1],x) /\ RLt(x,i[2])
Lat(n) == [1..n -> L1]
InB(p,c) == \A k \in 1..Len(c) : In1(p[k],c[k])
IntB(p,c) == \A k \in 1..Len(c) : RLt(c[k][1],p[k]) /\ RLt(p[k],c[k][2])
Init == a \in [1..1 -> Iv] \cup [1..2 -> Iv] /\ b = <<>>
Proper(c) == ~BEmp(c)
Next == b = <<>> /\ b' \in [1..Len(a) -> Iv] /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a,b>>
Pts == Lat(Len(a))
Ready == b # <<>>
SubsetOk == (Ready /\ Proper(a) /\ Proper(b)) => (Rel("subset",a,b) <=> \A p \in Pts : InB(p,a) => InB(p,b))
MeetOk == (Ready /\ Proper(a) /\ Proper(b)) => (Rel("intersect",a,b) <=> \E p \in Pts : InB(p,a) /\ InB(p,b))
DisjOk == Ready => (Rel("disjoint",a,b) <=> ~\E p \in Pts : InB(p,a) /\ InB(p,b))
InsideOk == (Ready /\ Proper(a)) => (Rel("inside",a,b) <=> \A p \in Pts : InB(p,a) => IntB(p,b))
InterOk == Ready => \A p \in Pts : InB(p,Inter(a,b)) <=> (InB(p,a) /\ InB(p,b))
HullOk == (Ready /\ Proper(a) /\ Proper(b)) => /\ \A p \in Pts : (InB(p,a) \/ InB(p,b)) => InB(p,Hull(a,b))
                                               /\ \A k \in 1..Len(a) : Hull(a,b)[k][1] \in {a[k][1],b[k][1]} /\ Hull(a,b)[k][2] \in {a[k][2],b[k][2]}
OverlapOk == (Ready /\ Len(a) = 1 /\ Proper(a) /\ Proper(b) /\ ~(REq(a[1][1],a[1][2]) /\ REq(b[1][1],b[1][2]))) => (Rel("overlap",a,b) <=> \E x \in {RDiv(RInt(k),"4") : k \in 0..(4*M)} : Int1(x,a[1]) /\ Int1(x,b[1]))
=================================================================================
