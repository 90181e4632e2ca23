------------------------------ MODULE TaylorTrace ------------------------------
(* A Taylor model is the set of functions f on [-1,1]^n with |f(x)-p(x)| <= e; the    *)
(* values that its functions take at x form the interval V(m,x).  Since the functions *)
(* are otherwise unrestricted, an operation is right exactly if at every point the     *)
(* image of the values of the arguments is contained in the values of the result.      *)
EXTENDS Enclosure, Poly, TraceBase
VARIABLE l
E == Trace[l]
Iv(c) == <<R(c[1]),R(c[2])>>
Pnt(q) == <<q,q>>
Err(m) == <<RNeg(R(m.e)),R(m.e)>>
IMulQ(i,q) == IF RLe(Zero,q) THEN <<RMul(i[1],q),RMul(i[2],q)>> ELSE <<RMul(i[2],q),RMul(i[1],q)>>
RECURSIVE PSum(_,_,_,_)
PSum(p,x,i,s) == IF i > Len(p) THEN s
   ELSE LET c == p[i][2] q == MVal(p[i][1],x,1) IN
        PSum(p,x,i+1,IF c[1] = c[2] THEN LET t == RMul(R(c[1]),q) IN <<RAdd(s[1],t),RAdd(s[2],t)>> ELSE IAdd(s,IMulQ(Iv(c),q)))
V(m,x) == PSum(m.p,x,1,Err(m))
Pt(x) == TLCEval([i \in 1..Len(x) |-> R(x[i])])
FinM(m) == RIsFin(R(m.e)) /\ RLe(Zero,R(m.e)) /\ \A i \in 1..Len(m.p) : RIsFin(R(m.p[i][2][1])) /\ RIsFin(R(m.p[i][2][2])) /\ RLe(R(m.p[i][2][1]),R(m.p[i][2][2]))
SortedM(m) == \A i \in 1..(Len(m.p)-1) : RLexLess(m.p[i][1],m.p[i+1][1])
CMag(c) == RMax(RAbs(R(c[1])),RAbs(R(c[2])))
RECURSIVE NSum(_,_,_)
NSum(p,i,s) == IF i > Len(p) THEN s ELSE NSum(p,i+1,RAdd(s,CMag(p[i][2])))
PolNorm(m) == NSum(m.p,1,Zero)
Norm(m) == RAdd(PolNorm(m),R(m.e))
IsConst(a) == \A i \in 1..Len(a) : a[i] = 0
ConstOf(m) == LET I == {i \in 1..Len(m.p) : IsConst(m.p[i][1])} IN IF I = {} THEN Pnt(Zero) ELSE Iv(m.p[CHOOSE i \in I : TRUE][2])
\* the range obtained by bounding every non-constant term by its coefficient
CoarseRange(m) == LET c == ConstOf(m) d == RSub(Norm(m),IMag(c)) IN <<RSub(c[1],d),RAdd(c[2],d)>>
Bits(t) == IF t = "m" THEN -75 ELSE -40
(* ------------------------------- pointwise operations ---------------------------- *)
Sub1(x,k,q) == [x EXCEPT ![k] = q]
Half == "1/2"
\* exact (or bracketed) image at x
Point(v,x) == LET f == v.f m == v.m c == Iv(v.c) k == v.k+1 IN
  CASE f \in {"add","sub","mul","max","min","div"} -> Img(f,<<V(m[1],x),V(m[2],x)>>,0)
    [] f \in {"sqr","neg","pos","abs","exp","sin","cos","tan","atan","rec","sqrt","log"} -> Img(f,<<V(m[1],x)>>,0)
    [] f = "nul" -> Exact(Pnt(Zero))
    [] f = "pow" -> Img("pow",<<V(m[1],x)>>,v.k)
    [] f = "addc" -> Img("add",<<V(m[1],x),c>>,0)
    [] f = "subc" -> Img("sub",<<V(m[1],x),c>>,0)
    [] f = "csub" -> Img("sub",<<c,V(m[1],x)>>,0)
    [] f = "mulc" -> Img("mul",<<V(m[1],x),c>>,0)
    [] f = "divc" -> Img("div",<<V(m[1],x),c>>,0)
    [] f = "cdiv" -> Img("div",<<c,V(m[1],x)>>,0)
    [] f = "maxc" -> Img("max",<<V(m[1],x),c>>,0)
    [] f = "minc" -> Img("min",<<V(m[1],x),c>>,0)
    [] f = "sweep" -> Exact(V(m[1],x))
    [] f = "const" -> Exact(c)
    [] f = "coord" -> Exact(Pnt(x[k]))
    [] f = "ball" -> Exact(<<RNeg(c[1]),c[1]>>)
    [] f = "unscale" -> Exact(IMul(ISub(V(m[1],x),Pnt(RDiv(RAdd(c[1],c[2]),"2"))),Pnt(RDiv("2",RSub(c[2],c[1])))))
    [] f = "unscale0" -> Exact(Pnt(Zero))
    [] f = "scaling" -> Exact(Pnt(RAdd(RDiv(RAdd(c[1],c[2]),"2"),RMul(x[k],RDiv(RSub(c[2],c[1]),"2")))))
    [] f = "splitl" -> Exact(V(m[1],Sub1(x,k,RDiv(RSub(x[k],One),"2"))))
    [] f = "splitu" -> Exact(V(m[1],Sub1(x,k,RDiv(RAdd(x[k],One),"2"))))
    [] f = "splitm" -> Exact(V(m[1],Sub1(x,k,RDiv(x[k],"2"))))
    [] f = "embed" -> Exact(V(m[1],SubSeq(x,v.k+1,v.k+m[1].n)))
    [] f = "anti" -> Exact(IAdd(PSum([i \in 1..Len(m[1].p) |-> LET a == m[1].p[i][1] cc == Iv(m[1].p[i][2]) d == RInt(a[k]+1) IN <<[a EXCEPT ![k] = @+1],<<RDiv(cc[1],d),RDiv(cc[2],d)>> >>],x,1,Pnt(Zero)),IMul(Err(m[1]),Pnt(RAbs(x[k])))))
    [] f = "der" -> LET D == SelectSeq(m[1].p,LAMBDA t : t[1][k] > 0) IN
                    Exact(PSum([i \in 1..Len(D) |-> LET a == D[i][1] cc == Iv(D[i][2]) d == RInt(a[k]) IN <<[a EXCEPT ![k] = @-1],<<RMul(cc[1],d),RMul(cc[2],d)>> >>],x,1,Pnt(Zero)))
    [] f = "part" -> Exact(IHull(V(m[1],SubSeq(x,1,v.k) \o <<c[1]>> \o SubSeq(x,v.k+1,Len(x))),V(m[1],SubSeq(x,1,v.k) \o <<c[2]>> \o SubSeq(x,v.k+1,Len(x)))))
    [] f = "comp" -> LET g == TLCEval([i \in 1..m[1].n |-> V(m[i+1],x)])
                         at(s) == V(m[1],TLCEval([i \in 1..m[1].n |-> CASE s[i] = 0 -> RMax(g[i][1],"-1") [] s[i] = 1 -> RMin(g[i][2],One) [] OTHER -> Mid(g[i])]))
                         S == {[i \in 1..m[1].n |-> 0],[i \in 1..m[1].n |-> 1],[i \in 1..m[1].n |-> 2],[i \in 1..m[1].n |-> i % 2]}
                     IN Exact(FoldSet(LAMBDA s, h : IHull(h,at(s)),at([i \in 1..m[1].n |-> 2]),S))
\* the operation is defined for all values at x
Defd(v,x) == CASE v.f \in {"rec"} -> ~HasZero(V(v.m[1],x)) [] v.f = "cdiv" -> ~HasZero(V(v.m[1],x)) [] v.f = "div" -> ~HasZero(V(v.m[2],x))
               [] v.f = "pow" /\ v.k < 0 -> ~HasZero(V(v.m[1],x))
               [] v.f \in {"log"} -> RLt(Zero,V(v.m[1],x)[1]) [] v.f = "sqrt" -> RLe(Zero,V(v.m[1],x)[1]) [] v.f = "divc" -> ~HasZero(Iv(v.c))
               [] OTHER -> TRUE
MayRefuse(v) == CASE v.f \in {"rec","cdiv"} \/ (v.f = "pow" /\ v.k < 0) -> HasZero(CoarseRange(v.m[1]))
                  [] v.f = "div" -> HasZero(CoarseRange(v.m[2]))
                  [] v.f \in {"log","sqrt"} -> RLe(CoarseRange(v.m[1])[1],Zero)
                  [] OTHER -> FALSE
Poly2 == {"add","sub","mul","sqr","neg","pos","nul","addc","subc","csub","mulc","divc","const","coord","ball","unscale","unscale0","scaling","splitl","splitu","splitm","embed","anti","der","pow","comp","part"}
Smooth == {"exp","sin","cos","rec","sqrt","log","div","tan","atan","cdiv"}
\* degree of the result obeys the sweeper; threshold for the terms
Kept(s,m,a,c) == CASE s[1] = "thr" -> RLe(R(s[2]),CMag(c)) [] s[1] = "grd" -> Deg(a) <= s[2] [] s[1] = "gthr" -> Deg(a) <= s[2] /\ RLe(R(s[3]),CMag(c)) [] s[1] = "aff" -> Deg(a) <= 1 [] OTHER -> TRUE
Swept(v) == \A i \in 1..Len(v.r.p) : Kept(v.s,v.r,v.r.p[i][1],v.r.p[i][2])
SweptOps == {"sweep","mul"}
\* terms that a sweep may not drop: those the sweeper keeps (relative thresholds with slack)
KeepTerm(s,m,a,c) == IF s[1] = "rel" THEN RLt(RMul("2",RMul(R(s[2]),Norm(m))),CMag(c)) ELSE Kept(s,m,a,c)
SweepKeeps(v) == \A i \in 1..Len(v.m[1].p) : LET t == v.m[1].p[i] IN
   (KeepTerm(v.s,v.m[1],t[1],t[2]) /\ ~REq(CMag(t[2]),Zero)) => \E j \in 1..Len(v.r.p) : v.r.p[j][1] = t[1] /\ (v.t = "i" \/ (REq(R(v.r.p[j][2][1]),R(t[2][1])) /\ REq(R(v.r.p[j][2][2]),R(t[2][2]))))
SweepErr(v) == RLe(R(v.r.e),RMul("3/2",RAdd(R(v.m[1].e),RAdd(RSub(PolNorm(v.m[1]),RMul("999999999/1000000000",PolNorm(v.r))),IF v.t = "i" THEN PolNorm(v.m[1]) ELSE Zero))))
SeqMaxN(ms) == FoldSet(LAMBDA i, s : RMax(s,Norm(ms[i])),One,1..Len(ms))
\* width demands where no term is discarded
Tol(v) == LET b == RMul(SeqMaxN(v.m),RMax(One,IMag(Iv(v.c)))) d == IF v.f = "pow" THEN RPow(b,IF v.k < 0 THEN 0 ELSE v.k) ELSE IF v.f = "unscale" THEN RMul(b,RDiv("8",RSub(R(v.c[2]),R(v.c[1])))) ELSE IF v.f = "divc" THEN RMul(b,"8") ELSE RMul(b,RMul(b,b)) IN RMul(RTwoExp(Bits(v.t)),d)
WMax(v) == RAdd(R(v.m[1].e),IF Len(v.m) > 1 THEN R(v.m[2].e) ELSE Zero)
AllExact(v) == /\ \A i \in 1..Len(v.m) : REq(R(v.m[i].e),Zero) /\ \A j \in 1..Len(v.m[i].p) : v.m[i].p[j][2][1] = v.m[i].p[j][2][2]
               /\ v.c[1] = v.c[2] \/ v.f \in {"scaling","unscale"}
NoErrOf(m) == [m EXCEPT !.e = "0"]
OkTight(v,g,y) == IF v.s[1] # "triv" THEN TRUE ELSE
   CASE v.f \in Poly2 /\ ~(v.f = "pow" /\ v.k < 0) /\ AllExact(v) -> Tight(g,y,Tol(v))
     [] v.f \in Smooth /\ AllExact(v) -> TRUE
     [] OTHER -> TRUE
OkOp(v) ==
  IF v.st # "ok" THEN MayRefuse(v)
  ELSE /\ FinM(v.r) /\ (v.f # "der" => SortedM(v.r))
       /\ v.r.n = (CASE v.f = "embed" -> Len(v.x[1]) [] v.f = "part" -> v.m[1].n-1 [] v.f = "comp" -> v.m[2].n [] v.f = "emberr" -> v.m[1].n+1 [] OTHER -> v.m[1].n)
       /\ IF v.f = "emberr" THEN REq(R(v.r.e),Zero) /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) a == V(v.m[1],x) b == V(v.r,Append(x,"-1")) c == V(v.r,Append(x,"1")) h == IHull(b,c) IN REq(a[1],h[1]) /\ REq(a[2],h[2])
          ELSE \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) IN IF ~Defd(v,x) THEN TRUE ELSE
               LET g == Point(v,x) y == V(v.r,x) IN
               IF v.t = "a" THEN IF v.f \in Poly2 /\ ~(v.f = "pow" /\ v.k < 0) /\ v.s[1] = "triv" THEN Tight(g,y,Tol(v)) ELSE TRUE
               ELSE Sound(g,y) /\ OkTight(v,g,y)
       /\ (v.f \in SweptOps /\ v.t # "i") => Swept(v)
       /\ v.f = "sweep" => SweepKeeps(v) /\ (v.t # "a" => SweepErr(v))
(* ------------------------------------ evaluation ----------------------------------- *)
Corner(b,s) == TLCEval([i \in 1..Len(b) |-> CASE s = 0 -> R(b[i][1]) [] s = 1 -> R(b[i][2]) [] s = 2 -> RDiv(RAdd(R(b[i][1]),R(b[i][2])),"2") [] OTHER -> R(b[i][1 + (i % 2)])])
OkEval(v) == \A s \in 0..3 : LET y == V(v.m,Corner(v.b,s)) r == Iv(v.r) tol == RMul(RTwoExp(Bits(v.t)),RAdd(One,Norm(v.m))) IN
   /\ v.t = "a" \/ (RLe(r[1],y[1]) /\ RLe(y[2],r[2]))
   /\ (\A i \in 1..Len(v.b) : v.b[i][1] = v.b[i][2]) => RLe(RSub(y[1],tol),r[1]) /\ RLe(r[2],RAdd(y[2],tol))
DPol(m,k) == LET D == SelectSeq(m.p,LAMBDA t : t[1][k] > 0) IN [i \in 1..Len(D) |-> LET a == D[i][1] cc == Iv(D[i][2]) d == RInt(a[k]) IN <<[a EXCEPT ![k] = @-1],<<RMul(cc[1],d),RMul(cc[2],d)>> >>]
OkGrad(v) == \A k \in 1..v.m.n : \A s \in 0..3 : LET y == PSum(DPol(v.m,k),Corner(v.b,s),1,Pnt(Zero)) r == Iv(v.r[k]) IN RLe(r[1],y[1]) /\ RLe(y[2],r[2])
OkRange(v) == LET r == Iv(v.r) cd == Iv(v.cd) nm == R(v.norm) cr == CoarseRange(v.m) tol == RMul(RTwoExp(-45),RAdd(One,Norm(v.m))) rd == R(v.rad) av == Iv(v.avg) IN
   /\ \A j \in 1..Len(v.x) : LET y == V(v.m,Pt(v.x[j])) IN
        /\ RLe(r[1],y[1]) /\ RLe(y[2],r[2]) /\ RLe(cd[1],y[1]) /\ RLe(y[2],cd[2])
        /\ RLe(IMag(y),nm) /\ RLe(y[2],RAdd(av[2],rd)) /\ RLe(RSub(av[1],rd),y[1])
   /\ RLe(nm,RAdd(Norm(v.m),tol)) /\ RLe(RSub(cr[1],tol),r[1]) /\ RLe(r[2],RAdd(cr[2],tol))
OkCmp(v) == \A j \in 1..Len(v.x) : LET y == V(v.m,Pt(v.x[j])) IN (v.lt => RLt(y[2],R(v.c))) /\ (v.gt => RLt(R(v.c),y[1]))
(* ----------------------------------- refinement ------------------------------------ *)
CoAt(m,a) == LET I == {i \in 1..Len(m.p) : m.p[i][1] = a} IN IF I = {} THEN Pnt(Zero) ELSE Iv(m.p[CHOOSE i \in I : TRUE][2])
DiffNorm(a,b) == LET D == {a.p[i][1] : i \in 1..Len(a.p)} \cup {b.p[i][1] : i \in 1..Len(b.p)} IN FoldSet(LAMBDA d, s : RAdd(s,IMag(ISub(CoAt(a,d),CoAt(b,d)))),Zero,D)
OkRefine(v) == LET a == v.m[1] b == v.m[2] dn == DiffNorm(a,b) common == RLe(dn,RAdd(R(a.e),R(b.e))) slack == RMul("1000001/1000000",dn) IN
   /\ IF v.t = "i" THEN TRUE ELSE
      /\ v.ic => ~common
      /\ v.st # "ok" => ~common
      /\ RLe(RAdd(R(a.e),slack),R(b.e)) /\ ~REq(R(b.e),Zero) => v.rf
   /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) va == V(a,x) vb == V(b,x) h == IMeet(va,vb) vr == V(v.r,x) IN
      /\ v.rf => Subset(va,vb)
      /\ (v.hc /\ v.cn) => RLe(h[1],h[2])
   /\ v.st = "ok" => \A d \in {a.p[i][1] : i \in 1..Len(a.p)} \cup {b.p[i][1] : i \in 1..Len(b.p)} :
        LET ca == IAdd(CoAt(a,d),Err(a)) cb == IAdd(CoAt(b,d),Err(b)) h == IMeet(ca,cb) cr == IAdd(CoAt(v.r,d),Err(v.r)) w == RMul("1/1000000000",RAdd(One,RAdd(IMag(ca),IMag(cb)))) IN
        /\ RLe(h[1],h[2]) => RLe(cr[1],h[1]) /\ RLe(h[2],cr[2])
        /\ v.t # "i" => RLe(R(v.r.e),RAdd(w,RMin(R(a.e),R(b.e))))
\* every function of both models should be a function of the refinement (it is not: known finding)
OkRefineK(v) == \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) h == IMeet(V(v.m[1],x),V(v.m[2],x)) vr == V(v.r,x) IN RLe(h[1],h[2]) => RLe(vr[1],h[1]) /\ RLe(h[2],vr[2])
OkScalingK(v) == LET d == Iv(v.d) IN Subset(Pnt(d[1]),V(v.r,<<RInt(-1)>>)) /\ Subset(Pnt(d[2]),V(v.r,<<One>>))
Drops(x,D) == LET S == {i \in 1..Len(x) : ~(\E d \in 1..Len(D) : D[d]+1 = i)} IN TLCEval([i \in 1..Cardinality(S) |-> x[CHOOSE s \in S : Cardinality({t \in S : t <= s}) = i]])
OkDiscard(v) == FinM(v.r) /\ v.r.n = v.m.n - Len(v.d) /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) IN Subset(V(v.m,x),V(v.r,Drops(x,v.d)))
Ok(v) == CASE v.ev = "op" -> OkOp(v) [] v.ev = "eval" -> OkEval(v) [] v.ev = "range" -> OkRange(v) [] v.ev = "cmp" -> OkCmp(v) [] v.ev = "refine" -> OkRefine(v) [] v.ev = "refineK" -> OkRefineK(v) [] v.ev = "scalingK" -> OkScalingK(v)
           [] v.ev = "discard" -> OkDiscard(v) [] v.ev = "grad" -> OkGrad(v) [] OTHER -> FALSE
Why(v) == CASE v.ev = "op" -> <<v.f,v.t,v.s[1],v.st>> [] v.ev = "fail" -> <<v.what>> [] OTHER -> <<v.ev>>
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),Why(E)) /\ l' = l+1 /\ Done(l+1)
Spec == Init /\ [][Next]_l
================================================================================
