------------------------------- MODULE ProcTrace -------------------------------
(* Procedures compute the function of the formulae they are made from; reducing a   *)
(* box by constraints keeps every point of the box that satisfies them.             *)
EXTENDS FuncTrace
\* second derivative along d
OkPdd(v) == LET x == Pts(v.x) d == Pts(v.d) a == SerFrom(v.p,1,<<>>,x,d,2) z == a[Len(a)] IN Fin(z[3]) => OkObj(IScl(2,z[3]),v.h,Tol(SMag(a),-22))
Within(i,b) == RLe(R(b[1]),i[1]) /\ RLe(i[2],R(b[2]))
Satisfies(v,x) == LET s == Vals(v.p,Pts(x)) IN \A k \in 1..Len(v.c) : Within(s[v.c[k]],v.cd[k])
InBox(x,b) == \A i \in 1..Len(x) : RLe(R(b[i][1]),R(x[i])) /\ RLe(R(x[i]),R(b[i][2]))
InBoxes(b,d) == \A i \in 1..Len(b) : RLe(R(d[i][1]),R(b[i][1])) /\ RLe(R(b[i][2]),R(d[i][2]))
OkHull(v) == /\ v.st = "ok" /\ \A i \in 1..Len(v.r) : ~RIsNan(R(v.r[i][1])) /\ ~RIsNan(R(v.r[i][2]))
             /\ InBoxes(v.r,v.d)
             /\ \A j \in 1..Len(v.x) : Satisfies(v,v.x[j]) => InBox(v.x[j],v.r)
\* a solver which says that the reduced box is empty claims that no point satisfies the constraints
OkRet(v) == "ret" \in DOMAIN v /\ v.ret => \A j \in 1..Len(v.x) : ~Satisfies(v,v.x[j])
\* feasibility: TRUE comes with a point which satisfies the constraints, FALSE says that there is none
MaySatisfy(v,x) == LET s == Vals(v.p,Pts(x)) IN \A k \in 1..Len(v.c) : RLe(s[v.c[k]][1],R(v.cd[k][2])) /\ RLe(R(v.cd[k][1]),s[v.c[k]][2])
OkFeas(v) == /\ v.st = "ok"
             /\ v.r = "t" => Len(v.y) = Len(v.d) /\ InBox(v.y,v.d) /\ MaySatisfy(v,v.y)
             /\ v.r = "f" => IF v.o = "chk" THEN ~(InBox(v.y,v.d) /\ Satisfies(v,v.y)) ELSE \A j \in 1..Len(v.x) : ~Satisfies(v,v.x[j])
PrOk(v) == CASE v.ev = "pdd" -> OkPdd(v) [] v.ev = "hull" -> OkHull(v) /\ OkRet(v) [] v.ev = "feas" -> OkFeas(v) [] OTHER -> Ok(v)
PSpec == l = 1 /\ [][l <= TraceLen /\ Judge(l,PrOk(E),Why(E)) /\ l' = l+1 /\ Done(l+1)]_l
================================================================================
