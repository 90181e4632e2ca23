------------------------------- MODULE FuncTrace -------------------------------
(* Generic functions.  Whatever way a function is made (from formulas, expressions,  *)
(* constants, coordinates, arithmetic, composition, joining, embedding, assigning     *)
(* components), it denotes the mathematical function given by the program; evaluation  *)
(* in any number class, differentiation (functions and values of the derivatives),     *)
(* interval images and Lie derivatives agree with that denotation.                     *)
EXTENDS Term, FiniteSetsExt, TraceBase
VARIABLE l
E == Trace[l]
Pts(x) == [i \in 1..Len(x) |-> Pnt(R(x[i]))]
Mag(i) == RMax(RAbs(i[1]),RAbs(i[2]))
Fin(i) == RIsFin(i[1]) /\ RIsFin(i[2])
Unit(n,k) == [i \in 1..n |-> Pnt(IF i = k THEN "1" ELSE "0")]
Obj(o) == CASE o[1] = "b" -> <<R(o[2]),R(o[3])>> [] o[1] = "a" -> <<R(o[2]),R(o[2])>> [] OTHER -> <<"nan","nan">>
OkObj(val,o,tol) == LET r == Obj(o) IN /\ (o[1] = "b" => True(val,r)) /\ Near(val,r[1],tol) /\ Near(val,r[2],tol)
MaxMag(vs) == FoldSet(LAMBDA i, m : RMax(m,Mag(vs[i])),"1",1..Len(vs))
SMag(all) == FoldSet(LAMBDA i, m : RMax(m,FoldSet(LAMBDA k, n : RMax(n,Mag(all[i][k])),"1",1..Len(all[i]))),"1",1..Len(all))
Tol(m,e) == RMul(RTwoExp(e),RMul(m,RMul(m,m)))
\* every row is <<class of numbers, values of the components>>; r[i] must denote want[i]
OkRows(rs,want,tol) == \A i \in 1..Len(rs) : LET r == rs[i][2] IN Len(r) = Len(want) /\ \A k \in 1..Len(want) : OkObj(want[k],r[k],tol)
OkVal(v) == LET vs == Vals(v.p,Pts(v.x)) IN
   v.as = v.n /\ v.rs = Len(v.c) /\ OkRows(v.r,[k \in 1..Len(v.c) |-> vs[v.c[k]]],Tol(MaxMag(vs),-26))
\* r: rows of matrices of partial derivatives
OkJac(v) == LET x == Pts(v.x) n == Len(x) IN
   \A j \in 1..n : LET all == SerFrom(v.p,1,<<>>,x,Unit(n,j),1) tol == Tol(SMag(all),-26) IN
     \A i \in 1..Len(v.r) : LET r == v.r[i][2] IN
        Len(r) = Len(v.c) /\ \A k \in 1..Len(v.c) : Len(r[k]) = n /\ (Fin(all[v.c[k]][2]) => OkObj(all[v.c[k]][2],r[k][j],tol))
\* second partial derivatives by polarisation of the second directional derivatives
Second(p,x,k,j) == LET n == Len(x) a == SerFrom(p,1,<<>>,x,Unit(n,k),2) IN
   IF k = j THEN [val |-> [i \in 1..Len(p) |-> IScl(2,a[i][3])], m |-> SMag(a)]
   ELSE LET b == SerFrom(p,1,<<>>,x,Unit(n,j),2) c == SerFrom(p,1,<<>>,x,[i \in 1..n |-> Pnt(IF i = k \/ i = j THEN "1" ELSE "0")],2) IN
        [val |-> [i \in 1..Len(p) |-> TSub(TSub(c[i][3],a[i][3]),b[i][3])], m |-> RMax(SMag(a),RMax(SMag(b),SMag(c)))]
First(p,x,k) == LET a == SerFrom(p,1,<<>>,x,Unit(Len(x),k),1) IN [val |-> [i \in 1..Len(p) |-> a[i][2]], m |-> SMag(a)]
OkDer(v) == LET x == Pts(v.x) s == IF v.l = 0 THEN First(v.p,x,v.k) ELSE Second(v.p,x,v.k,v.l) IN
   v.as = v.n /\ v.rs = Len(v.c) /\ ((\A k \in 1..Len(v.c) : Fin(s.val[v.c[k]])) => OkRows(v.r,[k \in 1..Len(v.c) |-> s.val[v.c[k]]],Tol(s.m,IF v.l = 0 THEN -26 ELSE -22)))
OkDers(v) == LET x == Pts(v.x) n == Len(x) s == [k \in 1..n |-> First(v.p,x,k)] IN
   v.as = n /\ ((\A k \in 1..n : Fin(s[k].val[v.c])) => OkRows(v.r,[k \in 1..n |-> s[k].val[v.c]],Tol(FoldSet(LAMBDA k, m : RMax(m,s[k].m),"1",1..n),-26)))
OkHess(v) == LET x == Pts(v.x) n == Len(x) IN Len(v.h) = n /\
   \A k,j \in 1..n : Len(v.h[k]) = n /\ (j >= k => LET s == Second(v.p,x,k,j) IN Fin(s.val[v.c]) => (OkObj(s.val[v.c],v.h[k][j],Tol(s.m,-22)) /\ OkObj(s.val[v.c],v.h[j][k],Tol(s.m,-22))))
\* derivative of g along the vector with components c
OkLie(v) == LET x == Pts(v.x) vs == Vals(v.p,x) d == [k \in 1..Len(v.c) |-> vs[v.c[k]]] all == SerFrom(v.p,1,<<>>,x,d,1) IN
   ((\A k \in 1..Len(v.g) : Fin(all[v.g[k]][2])) => OkRows(v.r,[k \in 1..Len(v.g) |-> all[v.g[k]][2]],Tol(SMag(all),-24)))
\* interval images contain the values at all points of the box
Covers(i,o) == LET r == Obj(o) IN RIsNan(r[1]) \/ RIsNan(r[2]) \/ True(i,r)
OkRng(v) == \A i \in 1..Len(v.x) : LET x == Pts(v.x[i]) n == Len(x) vs == Vals(v.p,x) IN
   /\ Len(v.r) = Len(v.c) /\ \A k \in 1..Len(v.c) : Covers(vs[v.c[k]],v.r[k])
   /\ Covers(vs[v.c0],v.r0)
   /\ (Len(v.j) > 0 => \A q \in 1..n : LET s == First(v.p,x,q).val IN
        /\ \A k \in 1..Len(v.c) : Fin(s[v.c[k]]) => Covers(s[v.c[k]],v.j[k][q])
        /\ Fin(s[v.c0]) => Covers(s[v.c0],v.j0[q]))
Ok(v) == CASE v.ev = "val" -> OkVal(v) [] v.ev = "jac" -> OkJac(v) [] v.ev = "der" -> OkDer(v) [] v.ev = "ders" -> OkDers(v) [] v.ev = "hess" -> OkHess(v) [] v.ev = "lie" -> OkLie(v) [] v.ev = "rng" -> OkRng(v)
              [] v.ev = "bad" -> v.j /\ v.a
              [] OTHER -> FALSE
Why(v) == v.ev
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),Why(E)) /\ l' = l+1 /\ Done(l+1)
Spec == Init /\ [][Next]_l
================================================================================
