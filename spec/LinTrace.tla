------------------------------- MODULE LinTrace -------------------------------
(* Linear algebra.  A matrix is a sequence of rows of closed rational intervals  *)
(* (exact scalars are degenerate intervals); a vector is a matrix of one column, *)
(* a covector of one row.  An arithmetic result encloses the exact image of all   *)
(* matrices in the arguments and is not much wider; the enclosure of a solution   *)
(* contains the exact rational solution for the sampled members of the argument;   *)
(* a matrix with a singular member is refused.                                     *)
EXTENDS TraceBase, Enclosure, Integers, FiniteSets
VARIABLE l
Pt(q) == <<q,q>>
Rows(a) == Len(a)
Cols(a) == IF Len(a) = 0 THEN 0 ELSE Len(a[1])
E(a,i,j) == <<R(a[i][j][1]),R(a[i][j][2])>>
M(a) == TLCEval([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> E(a,i,j)]])
Mk(m,n,f(_,_)) == TLCEval([i \in 1..m |-> [j \in 1..n |-> f(i,j)]])
RECURSIVE SumI(_,_,_)
SumI(f,i,acc) == IF i > Len(f) THEN acc ELSE SumI(f,i+1,IAdd(acc,f[i]))
Sum(f) == SumI(f,1,Pt("0"))
MMul(a,b) == Mk(Rows(a),Cols(b),LAMBDA i,j : Sum([k \in 1..Cols(a) |-> IMul(a[i][k],b[k][j])]))
MTr(a) == Mk(Cols(a),Rows(a),LAMBDA i,j : a[j][i])
MAdd(a,b) == Mk(Rows(a),Cols(a),LAMBDA i,j : IAdd(a[i][j],b[i][j]))
MSub(a,b) == Mk(Rows(a),Cols(a),LAMBDA i,j : ISub(a[i][j],b[i][j]))
Diag(f) == Mk(Len(f),Len(f),LAMBDA i,j : IF i = j THEN f[i] ELSE Pt("0"))
Mag(x) == RMax(RAbs(x[1]),RAbs(x[2]))
MaxOf(f) == LET RECURSIVE go(_,_) go(i,m) == IF i > Len(f) THEN m ELSE go(i+1,RMax(m,f[i])) IN go(1,"0")
Norm(a) == MaxOf([i \in 1..Rows(a) |-> MaxOf([j \in 1..Cols(a) |-> Mag(a[i][j])])])
IMax2(x,y) == <<RMax(x[1],y[1]),RMax(x[2],y[2])>>
RECURSIVE IMaxSeq(_,_,_)
IMaxSeq(f,i,m) == IF i > Len(f) THEN m ELSE IMaxSeq(f,i+1,IMax2(m,f[i]))
Exactly(t) == t = "q"
IsApp(t) == t \in {"da","ma"}
Bits(t) == IF t \in {"mb","ma"} THEN -80 ELSE -40
Fin(x) == RIsFin(x[1]) /\ RIsFin(x[2])
\* x (recorded) against the exact image e
EncT(t,x,e,tol) == IF Exactly(t) THEN REq(x[1],e[1]) /\ REq(x[2],e[2])
               ELSE /\ IsApp(t) \/ (RLe(x[1],e[1]) /\ RLe(e[2],x[2]))
                    /\ RLe(RSub(e[1],tol),x[1]) /\ RLe(x[2],RAdd(e[2],tol))
EncM(t,r,e,sc) == LET tol == RMul(RTwoExp(Bits(t)),RMul(RAdd("1",sc),RAdd("1",sc))) IN
  /\ Rows(r) = Rows(e) /\ Cols(r) = Cols(e)
  /\ \A i \in 1..Rows(r) : \A j \in 1..Cols(r) : EncT(t,r[i][j],e[i][j],tol)
RECURSIVE Swaps(_,_,_)
Swaps(a,p,i) == IF i > Len(p) THEN a ELSE LET k == p[i]+1 IN Swaps([a EXCEPT ![i] = a[k], ![k] = a[i]],p,i+1)
RECURSIVE SwapsBack(_,_,_)
SwapsBack(a,p,i) == IF i < 1 THEN a ELSE LET k == p[i]+1 IN SwapsBack([a EXCEPT ![i] = a[k], ![k] = a[i]],p,i-1)
RowSum(a,i) == Sum([j \in 1..Cols(a) |-> IAbs(a[i][j])])
OkMat(v) ==
  LET f == v.f t == v.t a == M(v.a) b == M(v.b) r == M(v.r) m == Rows(a) n == Cols(a)
      sc == RMul(RAdd("1",Norm(a)),RAdd("1",Norm(b)))
      x == IF f \in {"scl","div"} THEN <<R(v.x[1][1][1]),R(v.x[1][1][2])>> ELSE Pt("0")
      G(e) == EncM(t,r,e,RMul(sc,RAdd("1",Mag(x)))) IN
  CASE f = "add" -> G(MAdd(a,b)) [] f = "sub" -> G(MSub(a,b)) [] f = "neg" -> G(Mk(m,n,LAMBDA i,j : INeg(a[i][j]))) [] f = "pos" -> G(a)
    [] f = "scl" -> G(Mk(m,n,LAMBDA i,j : IMul(a[i][j],x))) [] f = "div" -> EncM(t,r,Mk(m,n,LAMBDA i,j : IDiv(a[i][j],x)),RMul(sc,RAdd("1",Mag(IRec(x)))))
    [] f = "mul" -> G(MMul(a,b)) [] f = "tr" -> G(MTr(a)) [] f = "mult" -> G(MMul(a,MTr(b))) [] f = "tmul" -> G(MMul(MTr(a),b))
    [] f = "join" -> r = a \o b [] f = "cojoin" -> r = [i \in 1..m |-> a[i] \o b[i]]
    [] f = "proj" -> r = Mk(v.x[2]-v.x[1],v.x[4]-v.x[3],LAMBDA i,j : a[v.x[1]+i][v.x[3]+j])
    [] f = "put" -> r = Mk(m,n,LAMBDA i,j : IF v.x[1] < i /\ i <= v.x[2] /\ v.x[3] < j /\ j <= v.x[4] THEN b[i-v.x[1]][j-v.x[3]] ELSE a[i][j])
    [] f \in {"dadd","dsub","dmul","ddiv"} -> EncM(t,r,Diag([i \in 1..m |-> CASE f = "dadd" -> IAdd(a[i][1],b[i][1]) [] f = "dsub" -> ISub(a[i][1],b[i][1]) [] f = "dmul" -> IMul(a[i][1],b[i][1]) [] OTHER -> IDiv(a[i][1],b[i][1])]),RMul(sc,sc))
    [] f = "drec" -> EncM(t,r,Diag([i \in 1..m |-> IRec(a[i][1])]),RMul(sc,sc))
    [] f = "ediv" -> EncM(t,r,Mk(m,1,LAMBDA i,j : IDiv(a[i][1],b[i][1])),RMul(sc,sc))
    [] f \in {"norm"} -> G(<< <<IMaxSeq([i \in 1..m |-> RowSum(a,i)],1,Pt("0"))>> >>)
    [] f = "rown" -> G(Mk(m,1,LAMBDA i,j : RowSum(a,i)))
    [] f = "sup" -> LET e == IMaxSeq([i \in 1..m |-> RowSum(a,i)],1,Pt("0")) IN G(<< <<Pt(e[2])>> >>) \/ (RLe(e[2],r[1][1][1]) /\ RLe(r[1][1][1],RAdd(e[2],RTwoExp(-30))))
    [] f = "vnorm" -> G(<< <<IMaxSeq([i \in 1..m |-> IAbs(a[i][1])],1,Pt("0"))>> >>)
    [] f = "vsup" -> LET e == IMaxSeq([i \in 1..m |-> IAbs(a[i][1])],1,Pt("0")) IN REq(r[1][1][1],e[2])
    [] f = "logn" -> LET e == IMaxSeq([i \in 1..m |-> Sum([j \in 1..n |-> IF j = i THEN a[i][i] ELSE IAbs(a[i][j])])],1,Pt("-inf")) IN RLe(e[2],r[1][1][1]) /\ RLe(r[1][1][1],RAdd(e[2],RMul(RTwoExp(-40),sc)))
    [] f = "two" -> LET e == Sum([i \in 1..m |-> IPosPow(a[i][1],2)]) x2 == IPosPow(r[1][1],2) IN RLe("0",r[1][1][2]) /\ EncT(t,x2,e,RMul(RTwoExp(Bits(t)),RMul(sc,sc)))
    [] f = "ident" -> r = Mk(m,m,LAMBDA i,j : IF i = j THEN Pt("1") ELSE Pt("0"))
    [] f = "eq" -> v.x = (a = b) [] f = "ne" -> v.x = (a # b)
    [] f = "mid" -> Rows(r) = m /\ Cols(r) = n /\ \A i \in 1..m : \A j \in 1..n : LET q == RMul("1/2",RAdd(a[i][j][1],a[i][j][2])) IN RLe(a[i][j][1],r[i][j][1]) /\ RLe(r[i][j][1],a[i][j][2]) /\ RLe(RAbs(RSub(r[i][j][1],q)),RMul(RTwoExp(-48),RAdd("1",RAbs(q))))
    [] f = "piv" -> r = Swaps(a,v.x,1)
    [] OTHER -> FALSE
(* --------------------------- exact rational linear systems ---------------------- *)
Q(s) == TLCEval([i \in 1..Len(s) |-> [j \in 1..Len(s[1]) |-> R(s[i][j])]])
\* Gauss-Jordan elimination of the augmented matrix; <<FALSE>> if singular
RECURSIVE Elim(_,_,_)
Elim(a,k,n) == IF k > n THEN <<TRUE,a>> ELSE
   LET P == {i \in k..n : ~REq(a[i][k],"0")} IN
   IF P = {} THEN <<FALSE>> ELSE
   LET p == CHOOSE i \in P : \A q \in P : i <= q
       b == TLCEval([a EXCEPT ![k] = a[p], ![p] = a[k]])
       piv == b[k][k]
       rk == TLCEval([j \in 1..Len(b[k]) |-> RDiv(b[k][j],piv)])
       c == TLCEval([i \in 1..n |-> IF i = k THEN rk ELSE IF REq(b[i][k],"0") THEN b[i] ELSE [j \in 1..Len(rk) |-> RSub(b[i][j],RMul(b[i][k],rk[j]))]]) IN
   Elim(c,k+1,n)
Solve(s,b) == LET n == Len(s) e == Elim([i \in 1..n |-> s[i] \o b[i]],1,n) IN
   IF ~e[1] THEN <<FALSE>> ELSE <<TRUE,TLCEval([i \in 1..n |-> [j \in 1..Len(b[1]) |-> e[2][i][n+j]]])>>
Member(s,a) == \A i \in 1..Len(s) : \A j \in 1..Len(s[1]) : RLe(a[i][j][1],s[i][j]) /\ RLe(s[i][j],a[i][j][2])
QNorm(s) == MaxOf([i \in 1..Len(s) |-> MaxOf([j \in 1..Len(s[1]) |-> RAbs(s[i][j])])])
RECURSIVE RPw(_,_)
RPw(x,k) == IF k = 0 THEN "1" ELSE RMul(x,RPw(x,k-1))
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
OkSolve(v) == LET a == M(v.a) r == M(v.r) n == Rows(a) t == v.t
                  sol == TLCEval([k \in 1..Len(v.s) |-> Solve(Q(v.s[k]),Q(v.b[k]))]) IN
  /\ \A k \in 1..Len(v.s) : Member(Q(v.s[k]),a)
  /\ IF v.ref THEN \* refused: right if some member is singular; a point matrix must then be singular
        IF v.w \/ t = "ui" THEN TRUE ELSE IF t \in {"q","db","mb"} /\ n <= 4 THEN (\E k \in 1..Len(v.s) : ~sol[k][1]) \/ (t # "q" /\ LET i1 == Solve(Q(v.s[1]),Unit(n)) IN RLt(RTwoExp(8),RMul(QNorm(i1[2]),QNorm(Q(v.s[1]))))) ELSE TRUE
     ELSE IF IsApp(t) THEN
        LET s1 == sol[1] inv == Solve(Q(v.s[1]),Unit(n)) IN
        IF ~s1[1] THEN TRUE ELSE
        LET cond == RMul(RAdd("1",QNorm(inv[2])),RAdd("1",QNorm(Q(v.s[1])))) tol == RMul(RTwoExp(Bits(t)),RMul(RMul(cond,RMul(cond,cond)),RAdd("1",QNorm(Q(v.b[1]))))) IN
        \* an ill-conditioned system has no accuracy demand
        IF RLt(RTwoExp(14),cond) THEN TRUE ELSE
        \A i \in 1..n : \A j \in 1..Len(s1[2][1]) : RIsFin(r[i][j][1]) /\ RLe(RAbs(RSub(r[i][j][1],s1[2][i][j])),tol)
     ELSE /\ \A k \in 1..Len(v.s) : IF sol[k][1]
               THEN /\ Rows(r) = n /\ Cols(r) = Len(sol[k][2][1])
                    /\ \A i \in 1..n : \A j \in 1..Cols(r) : RLe(r[i][j][1],sol[k][2][i][j]) /\ RLe(sol[k][2][i][j],r[i][j][2])
               ELSE \E i \in 1..n : \E j \in 1..Cols(r) : ~Fin(r[i][j])
          /\ t = "q" => \A i \in 1..n : \A j \in 1..Cols(r) : REq(r[i][j][1],sol[1][2][i][j])
          \* a point system of moderate condition is solved accurately
          /\ (v.w \/ ~sol[1][1]) \/
             LET inv == Solve(Q(v.s[1]),Unit(n)) cond == RMul(RAdd("1",QNorm(inv[2])),RAdd("1",QNorm(Q(v.s[1])))) IN
             RLt(RTwoExp(10),cond) \/ \A i \in 1..n : \A j \in 1..Cols(r) : RLe(RSub(r[i][j][2],r[i][j][1]),RMul(RTwoExp(Bits(t)),RMul(RPw(cond,2),RAdd("1",QNorm(Q(v.b[1]))))))
\* a Gauss-Seidel step keeps every solution contained in the starting enclosure
OkGStep(v) == LET x == M(v.x) r == M(v.r) IN v.ref \/
  (/\ Rows(r) = Rows(x)
   /\ \A i \in 1..Rows(x) : (RLe(x[i][1][1],r[i][1][1]) /\ RLe(r[i][1][2],x[i][1][2])) \/ RLt(r[i][1][2],r[i][1][1])
   /\ \A k \in 1..Len(v.s) : LET s == Solve(Q(v.s[k]),Q(v.b[k])) IN
      IF s[1] THEN Member(s[2],x) => Member(s[2],r) ELSE TRUE)
Cont(e,a) == \A i \in 1..Rows(a) : \A j \in 1..Cols(a) : RLe(e[i][j][1],a[i][j][1]) /\ RLe(a[i][j][2],e[i][j][2])
\* reconstruction contains A; for point matrices it is tight unless the entries are large
Close(t,w,e,a,sc) == w \/ RLt(RTwoExp(12),sc) \/ \A i \in 1..Rows(a) : \A j \in 1..Cols(a) : RLe(RSub(a[i][j][1],RMul(RTwoExp(Bits(t)),RPw(RAdd("1",sc),2))),e[i][j][1]) /\ RLe(e[i][j][2],RAdd(a[i][j][2],RMul(RTwoExp(Bits(t)),RPw(RAdd("1",sc),2))))
AllFin(a) == \A i \in 1..Rows(a) : \A j \in 1..Cols(a) : Fin(a[i][j])
OkPLU(v) == LET a == M(v.a) n == Rows(a) p == v.r[1] L == M(v.r[2]) U == M(v.r[3]) IN IF v.ref THEN TRUE ELSE
   /\ \A i \in 1..n : p[i]+1 \in i..n
   /\ \A i \in 1..n : \A j \in 1..n : (IF i = j THEN L[i][j] = Pt("1") ELSE j > i => L[i][j] = Pt("0")) /\ (j < i => U[i][j] = Pt("0"))
   /\ IF ~(AllFin(L) /\ AllFin(U)) THEN TRUE ELSE LET e == MMul(L,U) pa == Swaps(a,p,1) IN Cont(e,pa) /\ Close(v.t,v.w,e,pa,RMul(Norm(L),Norm(U)))
OkOrth(v) == LET a == M(v.a) n == Rows(a) O == M(v.r[1]) U == M(v.r[2]) IN IF v.ref THEN TRUE ELSE
   IF ~(AllFin(O) /\ AllFin(U)) THEN TRUE ELSE
   /\ \A i \in 1..n : \A j \in 1..n : j < i => U[i][j] = Pt("0")
   /\ LET e == MMul(O,U) g == MMul(MTr(O),O) IN
      /\ Cont(e,a) /\ Close(v.t,v.w,e,a,RMul(Norm(O),Norm(U)))
      /\ \A i \in 1..n : \A j \in 1..n : i # j => RLe(g[i][j][1],"0") /\ RLe("0",g[i][j][2])
      /\ v.ev = "gram" => \A i \in 1..n : RLe(g[i][i][1],"1") /\ RLe("1",g[i][i][2])
\* A P = Q R with Q orthogonal (approximate)
OkQR(v) == LET a == M(v.a) n == Rows(a) p == v.r[1] O == M(v.r[2]) U == M(v.r[3]) IN IF v.ref THEN TRUE ELSE
   IF ~(AllFin(O) /\ AllFin(U)) THEN TRUE ELSE
   LET e == MMul(O,U) g == MMul(MTr(O),O) pa == MTr(Swaps(MTr(a),p,1)) tol == RMul(RTwoExp(Bits(v.t)),RAdd("1",Norm(a))) IN
   /\ \A i \in 1..n : \A j \in 1..n : /\ j < i => U[i][j] = Pt("0")
                                      /\ RLe(RAbs(RSub(e[i][j][1],pa[i][j][1])),tol)
                                      /\ RLe(RAbs(RSub(g[i][j][1],IF i = j THEN "1" ELSE "0")),tol)
Ok(v) == CASE v.ev = "mat" -> OkMat(v) [] v.ev = "solve" -> OkSolve(v) [] v.ev = "gstep" -> OkGStep(v) [] v.ev = "plu" -> OkPLU(v)
          [] v.ev \in {"orth","gram"} -> OkOrth(v) [] v.ev = "qr" -> OkQR(v) [] v.ev = "size" -> v.ref [] OTHER -> FALSE
Why(v) == <<v.ev,IF v.ev \in {"mat","solve","fail","size"} THEN v.f ELSE "",IF v.ev # "size" THEN v.t ELSE "">>
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(Trace[l]),Why(Trace[l])) /\ l' = l+1 /\ Done(l')
Spec == Init /\ [][Next]_l
===============================================================================
