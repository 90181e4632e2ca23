------------------------------- MODULE AffTrace --------------------------------
(* Affine functions c+g.x and affine models (the set of functions within e of an   *)
(* affine function on [-1,1]^n).  A model is judged by the values its functions     *)
(* take at a point, as a Taylor model is; the first-order model of a nonlinear      *)
(* operation must contain the operation and may exceed it by its quadratic part.    *)
EXTENDS TaylorTrace
T == INSTANCE Term
Co1(m,j) == CoAt(m,[i \in 1..m.n |-> IF i = j THEN 1 ELSE 0])
Co0(m) == CoAt(m,[i \in 1..m.n |-> 0])
GNorm(m) == FoldSet(LAMBDA j, s : RAdd(s,IMag(Co1(m,j))),Zero,1..m.n)
Scale(v) == LET b == RMul(SeqMaxN(v.m),RMax(One,IMag(Iv(v.c)))) IN RMul(b,b)
Eps(v) == RMul(RTwoExp(Bits(v.t)),Scale(v))
RadC(v) == RDiv(RSub(R(v.c[2]),R(v.c[1])),"2")
CoefRad(m) == FoldSet(LAMBDA i, s : RAdd(s,RSub(R(m.p[i][2][2]),R(m.p[i][2][1]))),Zero,1..Len(m.p))
\* the error that a first-order model needs
Need(v) == LET e1 == R(v.m[1].e) IN
  CASE v.f = "add" -> RAdd(e1,R(v.m[2].e))
    [] v.f = "mul" -> LET a == v.m[1] b == v.m[2] e2 == R(b.e) IN RAdd(RAdd(RMul(RAdd(IMag(Co0(a)),GNorm(a)),e2),RMul(RAdd(IMag(Co0(b)),GNorm(b)),e1)),RAdd(RMul(e1,e2),RMul(GNorm(a),GNorm(b))))
    [] v.f = "neg" -> e1
    [] v.f \in {"addc","subc","csub"} -> RAdd(e1,RadC(v))
    [] v.f = "mulc" -> RAdd(RMul(e1,IMag(Iv(v.c))),RMul(RadC(v),PolNorm(v.m[1])))
    [] v.f = "sweep" -> LET D == SelectSeq(v.m[1].p,LAMBDA t : Deg(t[1]) > 1) IN RAdd(RAdd(e1,NSum(D,1,Zero)),CoefRad(v.m[1]))
    [] OTHER -> Zero
\* value at x of the first-order part of the operation
Lin(v,x) == CASE v.f = "mul" -> LET a == v.m[1] b == v.m[2] d(m) == ISub(V(m,x),Co0(m)) IN IAdd(IMul(Co0(a),Co0(b)),IAdd(IMul(Co0(a),d(b)),IMul(Co0(b),d(a))))
              [] OTHER -> Point(v,x)[1]
OkAop(v) == /\ FinM(v.r) /\ v.r.n = v.m[1].n
            /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) y == V(v.r,x) IN
                 IF v.t = "a" THEN LET g == Lin(v,x) IN Tight(<<g,g>>,y,Eps(v)) ELSE Sound(Point(v,x),y)
            /\ v.t # "a" => RLe(R(v.r.e),RAdd(Need(v),Eps(v)))
OkFop(v) == /\ v.r.n = v.m[1].n
            /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) y == V(v.r,x) g == Point(v,x) IN
                 /\ v.t # "a" => Sound(g,y)
                 /\ (v.t # "b" \/ AllExact(v)) => Tight(g,y,IF v.t = "q" THEN Zero ELSE RMul(Eps(v),IF v.f = "divc" THEN RMax(One,RDiv(One,IMag(Iv(v.c)))) ELSE One))
OkARange(v) == LET r == <<R(v.r[1]),R(v.r[2])>> c == CoarseRange(v.m) w == RAdd(c[2],Zero) tol == RMul(RTwoExp(Bits(v.t)),RAdd(One,Norm(v.m))) IN
   /\ \A j \in 1..Len(v.x) : LET y == V(v.m,Pt(v.x[j])) IN RLe(r[1],RAdd(y[1],IF v.t = "a" THEN tol ELSE Zero)) /\ RLe(RSub(y[2],IF v.t = "a" THEN tol ELSE Zero),r[2])
   /\ RLe(RSub(c[1],tol),r[1]) /\ RLe(r[2],RAdd(w,tol))
BMag(b) == FoldSet(LAMBDA i, s : RMax(s,CMag(b[i])),One,1..Len(b))
PointB(b) == \A i \in 1..Len(b) : b[i][1] = b[i][2]
OkAEval(v) == \A s \in 0..3 : LET y == V(v.m,Corner(v.b,s)) r == Iv(v.r) tol == IF v.t = "q" THEN Zero ELSE RMul(RTwoExp(Bits(v.t)),RMul(BMag(v.b),RAdd(One,Norm(v.m)))) IN
   /\ v.t = "a" \/ (RLe(r[1],y[1]) /\ RLe(y[2],r[2]))
   /\ PointB(v.b) => RLe(RSub(y[1],tol),r[1]) /\ RLe(r[2],RAdd(y[2],tol))
OkFDer(v) == LET c == Co1(v.m,v.k+1) r == Iv(v.r) IN REq(c[1],r[1]) /\ REq(c[2],r[2])
(* ---------------------------------- composition ------------------------------------- *)
Covers(i,r) == RLe(r[1],i[2]) /\ RLe(i[1],r[2])
Pick(i,s) == CASE s = 0 -> i[1] [] s = 1 -> i[2] [] OTHER -> Mid(i)
Fin2(i) == RIsFin(i[1]) /\ RIsFin(i[2])
FlatM(m) == REq(R(m.e),Zero) /\ REq(GNorm(m),Zero)
OkComp(v) == LET k == Len(v.m) IN
   /\ FinM(v.r) /\ v.r.n = v.m[1].n
   /\ IF v.t = "a" THEN \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) c == [i \in 1..k |-> Co0(v.m[i])] d == [i \in 1..k |-> ISub(V(v.m[i],x),Co0(v.m[i]))] a == T!SerFrom(v.p,1,<<>>,c,d,1) s == a[v.c]
                            g == IAdd(s[1],s[2]) tol == RMul(RTwoExp(-26),FoldSet(LAMBDA i, z : RMax(z,RMul(RAdd(One,IMag(a[i][1])),RAdd(One,IMag(a[i][2])))),One,1..Len(a))) IN Fin2(g) => Tight(<<g,g>>,V(v.r,x),tol)
      ELSE /\ \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) y == V(v.r,x) IN
                \A s \in 0..3 : LET z == [i \in 1..k |-> LET q == Pick(V(v.m[i],x),IF s = 3 THEN i % 2 ELSE s) IN <<q,q>>] IN Covers(T!Vals(v.p,z)[v.c],y)
           /\ (\A i \in 1..k : FlatM(v.m[i])) => RLe(Norm(v.r),RMul("1000",RAdd(One,IMag(T!Vals(v.p,[i \in 1..k |-> Co0(v.m[i])])[v.c])))) /\ RLe(R(v.r.e),RTwoExp(-16))
OkOf(v) == LET n == Len(v.d) IN FinM(v.r) /\ v.r.n = n /\
   \A j \in 1..Len(v.x) : LET x == Pt(v.x[j]) z == [i \in 1..n |-> LET q == RAdd(RDiv(RAdd(R(v.d[i][1]),R(v.d[i][2])),"2"),RMul(x[i],RDiv(RSub(R(v.d[i][2]),R(v.d[i][1])),"2"))) IN <<q,q>>] IN Covers(T!Vals(v.p,z)[Len(v.p)],V(v.r,x))
AOk(v) == CASE v.ev = "aop" -> OkAop(v) [] v.ev = "fop" -> OkFop(v) [] v.ev = "arange" -> OkARange(v) [] v.ev \in {"aeval","feval"} -> OkAEval(v) [] v.ev = "fder" -> OkFDer(v) [] v.ev = "acomp" -> OkComp(v) [] v.ev = "aof" -> OkOf(v) [] OTHER -> FALSE
AWhy(v) == v.ev
ASpec == l = 1 /\ [][l <= TraceLen /\ Judge(l,AOk(E),AWhy(E)) /\ l' = l+1 /\ Done(l+1)]_l
================================================================================
