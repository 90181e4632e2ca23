------------------------------- MODULE DiffTrace -------------------------------
(* Differentials enclose the Taylor coefficients of the exact function.  The        *)
(* coefficients c_a of a differential of f at x determine, for every direction d,    *)
(* the Taylor coefficients  sum_{|a|=k} c_a d^a  of t |-> f(x+t*d); these are         *)
(* compared with the ones that Term computes from the program of f.                 *)
EXTENDS Term, Poly, TraceBase
VARIABLE l
E == Trace[l]
IsApp(t) == t \in {"da","ma"}
Iv(c) == <<R(c[1]),R(c[2])>>
NoNan(r) == \A i \in 1..Len(r) : ~RIsNan(R(r[i][2][1])) /\ ~RIsNan(R(r[i][2][2]))
Sorted(r) == \A i \in 1..(Len(r)-1) : GradedLess(r[i][1],r[i+1][1])
Dirv(d) == [i \in 1..Len(d) |-> R(d[i])]
\* sum over the terms of degree k of c_a d^a, as an interval
Along(r,d,k) == LET I == {i \in 1..Len(r) : Deg(r[i][1]) = k} IN
                FoldSet(LAMBDA i, s : IAdd(s,IMul(Iv(r[i][2]),Pnt(MVal(r[i][1],d,1)))),Pnt("0"),I)
Mag(i) == RMax(RAbs(i[1]),RAbs(i[2]))
SeqMax(s) == FoldSet(LAMBDA i, m : RMax(m,s[i]),"1",1..Len(s))
\* scale of everything that occurs in the computation
Scale(all) == SeqMax([i \in 1..Len(all) |-> SeqMax([k \in 1..Len(all[i]) |-> Mag(all[i][k])])])
Bits(t) == IF t \in {"mb","ma"} THEN -70 ELSE -34
OkDir(v,d) == LET dq == Dirv(d)
                  all == SerFrom(v.p,1,<<>>,[i \in 1..v.n |-> Pnt(R(v.x[i]))],[i \in 1..v.n |-> Pnt(dq[i])],v.deg)
                  s == all[Len(all)] m == Scale(all) tol == RMul(RTwoExp(Bits(v.t)+3*v.deg),RMul(m,RMul(m,m))) IN
  \A k \in 0..v.deg : LET c == Along(v.r,dq,k) IN
    /\ IF IsApp(v.t) THEN TRUE ELSE True(s[k+1],c)
    /\ IF v.w THEN TRUE ELSE Near(s[k+1],c[1],tol) /\ Near(s[k+1],c[2],tol)
OkProg(v) == /\ v.deg >= 0 /\ NoNan(v.r)
             /\ v.c \in {"sparse","compose"} => Sorted(v.r)
             /\ \A i \in 1..Len(v.r) : Deg(v.r[i][1]) <= v.deg
             /\ \A j \in 1..Len(v.d) : OkDir(v,v.d[j])
(* --------------------------------- accessors ------------------------------------- *)
Get(r,a) == LET I == {i \in 1..Len(r) : r[i][1] = a} IN IF I = {} THEN <<"0","0">> ELSE Iv(r[CHOOSE i \in I : TRUE][2])
Eqv(c,w) == LET i == Iv(c) IN REq(i[1],w[1]) /\ REq(i[2],w[2])
Hes(r,n,i,j) == IF i = j THEN LET c == Get(r,MScale(MUnit(n,i),2)) IN <<RMul("2",c[1]),RMul("2",c[2])>> ELSE Get(r,MAdd(MUnit(n,i),MUnit(n,j)))
OkAcc(v) == /\ Eqv(v.v,Get(v.r,MZero(v.n)))
            /\ \A i \in 1..v.n : \A k \in 1..3 : Eqv(v.g[i][k],Get(v.r,MUnit(v.n,i)))
            /\ v.h # <<>> => \A i \in 1..v.n : \A j \in 1..v.n : Eqv(v.h[(i-1)*v.n+j],Hes(v.r,v.n,i,j))
(* ------------------- algebra on given coefficients: interval polynomials ----------- *)
Dm(r) == {r[i][1] : i \in 1..Len(r)}
Ip(r) == [a \in Dm(r) |-> Get(r,a)]
Ic(p,a) == IF a \in DOMAIN p THEN p[a] ELSE Pnt("0")
IpAdd(p,q) == [a \in (DOMAIN p) \cup (DOMAIN q) |-> IAdd(Ic(p,a),Ic(q,a))]
IpNeg(p) == [a \in DOMAIN p |-> INeg(p[a])]
IpScl(p,c) == [a \in DOMAIN p |-> IMul(p[a],c)]
IpTr(p,d) == [a \in {b \in DOMAIN p : Deg(b) <= d} |-> p[a]]
IpMulT(p,m,c) == [a \in {MAdd(b,m) : b \in DOMAIN p} |-> IMul(c,p[[i \in 1..Len(a) |-> a[i]-m[i]]])]
IpMul(p,q) == FoldSet(LAMBDA m, acc : IpAdd(acc,IpMulT(p,m,q[m])),<<>>,DOMAIN q)
Mx(a,b) == IF a > b THEN a ELSE b
Mn(a,b) == IF a < b THEN a ELSE b
K0(n,c) == [a \in {MZero(n)} |-> Pnt(c)]
SetAt(p,a,c) == [b \in (DOMAIN p) \cup {a} |-> IF b = a THEN Pnt(c) ELSE p[b]]
IpDer(p,k) == [a \in {[b EXCEPT ![k] = @-1] : b \in {c \in DOMAIN p : c[k] > 0}} |-> IMul(p[[a EXCEPT ![k] = @+1]],Pnt(RInt(a[k]+1)))]
IpAnti(p,k) == [a \in {[b EXCEPT ![k] = @+1] : b \in DOMAIN p} |-> IDiv(p[[a EXCEPT ![k] = @-1]],Pnt(RInt(a[k])))]
IpNorm(p) == FoldSet(LAMBDA a, s : RAdd(s,Mag(p[a])),"1",DOMAIN p)
\* r encloses the interval polynomial p (whose intervals are exact images), without being much wider
EncI(v,r,p) == LET q == Ip(r) tol == RMul(RTwoExp(Bits(v.t)),RMul(IpNorm(Ip(v.a)),RMul(IpNorm(Ip(v.b)),IpNorm(p)))) IN
   /\ NoNan(r) /\ Sorted(r)
   /\ \A a \in (DOMAIN p) \cup (DOMAIN q) : LET x == Ic(p,a) y == Ic(q,a) IN
        /\ IsApp(v.t) \/ (RLe(y[1],x[1]) /\ RLe(x[2],y[2]))
        /\ (v.w /\ v.f \in {"mul","sqr"}) \/ (RLe(RSub(x[1],tol),y[1]) /\ RLe(y[1],RAdd(x[1],tol)) /\ RLe(RSub(x[2],tol),y[2]) /\ RLe(y[2],RAdd(x[2],tol)))
\* as EncI for a result in which correlated arguments only need to be covered: contains the point result
Digit(f,k) == CASE f[k] = "0" -> 1 [] OTHER -> 2
OkAlg(v) == LET a == Ip(v.a) b == Ip(v.b) c == R(v.c) n == v.n d == Mn(v.da,v.db) f == v.f IN
  CASE f = "second" -> EncI(v,v.r,b) /\ \A x \in DOMAIN b : Deg(x) <= v.db
    [] f = "addc" -> v.dr = v.da /\ EncI(v,v.r,IpAdd(a,K0(n,c)))
    [] f = "subc" -> v.dr = v.da /\ EncI(v,v.r,IpAdd(a,K0(n,RNeg(c))))
    [] f = "csub" -> v.dr = v.da /\ EncI(v,v.r,IpAdd(IpNeg(a),K0(n,c)))
    [] f = "mulc" -> v.dr = v.da /\ EncI(v,v.r,IpScl(a,Pnt(c)))
    [] f = "divc" -> v.dr = v.da /\ EncI(v,v.r,IpScl(a,Pnt(RDiv("1",c))))
    [] f = "add" -> v.dr = d /\ EncI(v,v.r,IpTr(IpAdd(a,b),d))
    [] f = "sub" -> v.dr = d /\ EncI(v,v.r,IpTr(IpAdd(a,IpNeg(b)),d))
    [] f = "mul" -> v.dr = d /\ IF v.w THEN NoNan(v.r) ELSE EncI(v,v.r,IpTr(IpMul(a,b),d))
    [] f = "dblb" -> v.dr = v.db /\ EncI(v,v.r,IpAdd(b,b))
    [] f = "sqr" -> v.dr = v.da /\ IF v.w THEN NoNan(v.r) ELSE EncI(v,v.r,IpTr(IpMul(a,a),v.da))
    [] f = "zero" -> \A i \in 1..Len(v.r) : LET x == Iv(v.r[i][2]) IN RLe(x[1],"0") /\ RLe("0",x[2])
    [] f = "one" -> \A i \in 1..Len(v.r) : LET x == Iv(v.r[i][2]) IN IF Deg(v.r[i][1]) = 0 THEN RLe(x[1],"1") /\ RLe("1",x[2]) ELSE RLe(x[1],"0") /\ RLe("0",x[2])
    [] f = "const" -> v.dr = v.da /\ EncI(v,v.r,K0(n,c))
    [] f = "setv" -> v.dr = v.da /\ EncI(v,v.r,SetAt(a,MZero(n),c))
    [] f = "setg" -> v.dr = v.da /\ EncI(v,v.r,SetAt(a,MUnit(n,n),c))
    [] f \in {"der0","der1","der2"} -> LET k == IF f = "der0" THEN 1 ELSE IF f = "der1" THEN 2 ELSE 3 IN v.dr = Mx(v.da-1,0) /\ EncI(v,v.r,IpDer(a,k))
    [] f \in {"anti0","anti1","anti2"} -> LET k == IF f = "anti0" THEN 1 ELSE IF f = "anti1" THEN 2 ELSE 3 IN v.dr = v.da+1 /\ EncI(v,v.r,IpAnti(a,k))
    [] f = "anti0c" -> v.dr = v.da+1 /\ EncI(v,v.r,SetAt(IpAnti(a,1),<<0>>,c))
OkAff(v) == LET p == [a \in {MZero(v.n)} \cup (IF v.deg = 0 THEN {} ELSE {MUnit(v.n,i) : i \in 1..v.n}) |-> IF Deg(a) = 0 THEN R(v.v) ELSE R(v.g[CHOOSE i \in 1..v.n : a[i] = 1])] IN
  Sorted(v.r) /\ \A a \in (DOMAIN p) \cup Dm(v.r) : LET c == Get(v.r,a) q == Co(p,a) tol == RMul(RTwoExp(-40),RAdd("1",RAbs(q))) IN
     /\ (IsApp(v.t) \/ (RLe(c[1],q) /\ RLe(q,c[2]))) /\ RLe(RSub(q,tol),c[1]) /\ RLe(c[2],RAdd(q,tol))
(* ---------------- flows, implicit functions, Lie derivatives (exact) ------------------ *)
EncQ(t,r,p) == LET q == Ip(r) tol == RMul(RTwoExp(Bits(t)),RAdd("1",RMul(PNorm(p),PNorm(p)))) IN
   /\ NoNan(r)
   /\ \A a \in (DOMAIN p) \cup (DOMAIN q) : LET x == Co(p,a) y == Ic(q,a) IN
        /\ IsApp(t) \/ (RLe(y[1],x) /\ RLe(x,y[2]))
        /\ RLe(RSub(x,tol),y[1]) /\ RLe(y[2],RAdd(x,tol))
Var1(n,i) == [a \in {MUnit(n,i)} |-> "1"]
\* Picard iteration on polynomials in (x0,t,a), with phi relative to the point
PCompT(f,g,m,D) == FoldSet(LAMBDA a, s : PAdd(s,PScale(PTrunc(MComp(a,g,m,1),D),f[a])),PZero,DOMAIN f)
RECURSIVE Picard(_,_,_,_,_,_,_)
Picard(f,n,tm,m,D,k,phi) == IF k = 0 THEN phi
  ELSE LET N == n+1+m
           args == phi \o (IF tm = 1 THEN <<Var1(N,n+1)>> ELSE <<>>) \o [j \in 1..m |-> Var1(N,n+1+j)]
       IN Picard(f,n,tm,m,D,k-1,[i \in 1..n |-> PTrunc(PAdd(Var1(N,i),PAnti(PCompT(f[i],args,N,D),n+1)),D)])
OkFlow(v) == LET f == [i \in 1..v.n |-> PFrom(v.f[i])] N == v.n+1+v.m D == v.deg+1
                 phi == Picard(f,v.n,v.tm,v.m,D,D+1,[i \in 1..v.n |-> PZero]) IN
  Len(v.r) = v.n /\ \A i \in 1..v.n : EncQ(v.t,v.r[i],PAdd(phi[i],PConst(N,R(v.x0[i]))))
\* implicit function: f(x,h(x)) = 0 up to the degree, for the (unique) h with h(0)=0; computed by simplified Newton steps
RECURSIVE Imp(_,_,_,_,_,_)
Imp(f,m,lp,D,k,h) == IF k = 0 THEN h
  ELSE LET args == [i \in 1..lp |-> Var1(lp,i)] \o h
           val == [i \in 1..m |-> PCompT(f[i],args,lp,D)]
           J == [i \in 1..m |-> [j \in 1..m |-> Co(f[i],MUnit(lp+m,lp+j))]]
           det == IF m = 1 THEN J[1][1] ELSE RSub(RMul(J[1][1],J[2][2]),RMul(J[1][2],J[2][1]))
           step == IF m = 1 THEN <<PScale(val[1],RDiv("1",det))>>
                   ELSE <<PScale(PSub(PScale(val[1],J[2][2]),PScale(val[2],J[1][2])),RDiv("1",det)),PScale(PSub(PScale(val[2],J[1][1]),PScale(val[1],J[2][1])),RDiv("1",det))>>
       IN Imp(f,m,lp,D,k-1,[i \in 1..m |-> PTrunc(PSub(h[i],step[i]),D)])
OkImp(v) == LET f == [i \in 1..v.m |-> PFrom(v.f[i])] h == Imp(f,v.m,v.l,v.deg,v.deg+1,[i \in 1..v.m |-> PZero]) IN
  Len(v.r) = v.m /\ \A i \in 1..v.m : EncQ(v.t,v.r[i],PAdd(h[i],PConst(v.l,R(v.y0[i]))))
OkLie(v) == LET n == v.n f == [i \in 1..Len(v.f) |-> PFrom(v.f[i])] g == [i \in 1..n |-> PFrom(v.g[i])] IN
  \A i \in 1..Len(f) : EncQ(v.t,v.r[i],PTrunc(FoldSet(LAMBDA j, s : PAdd(s,PMul(PDer(f[i],j),g[j])),PZero,1..n),v.deg-1))
Ok(v) == CASE v.ev = "prog" -> OkProg(v) [] v.ev = "acc" -> OkAcc(v) [] v.ev = "alg" -> OkAlg(v) [] v.ev = "aff" -> OkAff(v)
           [] v.ev = "flow" -> OkFlow(v) [] v.ev = "impl" -> OkImp(v) [] v.ev = "lie" -> OkLie(v) [] v.ev = "fail" -> FALSE
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),IF "f" \in DOMAIN E /\ E.ev = "alg" THEN E.f ELSE "not enclosed") /\ l' = l+1 /\ Done(l')
Spec == Init /\ [][Next]_l
================================================================================
