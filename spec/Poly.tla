--------------------------------- MODULE Poly ----------------------------------
(* Monomials, their orders, and exact polynomial algebra.                         *)
(* A monomial is a sequence of exponents; a polynomial is a function from a finite *)
(* set of monomials to rational coefficients (monomials outside have coefficient 0).*)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
RECURSIVE SumSeq(_)
SumSeq(a) == IF a = <<>> THEN 0 ELSE a[1] + SumSeq(Tail(a))
Deg(a) == SumSeq(a)
MAdd(a,b) == [i \in 1..Len(a) |-> a[i]+b[i]]
MScale(a,k) == [i \in 1..Len(a) |-> a[i]*k]
MUnit(n,k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
MZero(n) == [i \in 1..n |-> 0]
\* first (last) place where two monomials differ
FirstDiff(a,b) == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
LastDiff(a,b) == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in (i+1)..Len(a) : a[j] = b[j]
LexLess(a,b) == a # b /\ LET i == FirstDiff(a,b) IN a[i] < b[i]
RLexLess(a,b) == a # b /\ LET i == LastDiff(a,b) IN a[i] > b[i]
GradedLess(a,b) == a # b /\ (Deg(a) < Deg(b) \/ (Deg(a) = Deg(b) /\ LET i == FirstDiff(a,b) IN a[i] > b[i]))
\* the successor in graded order: the least monomial that is greater (definition), and how to find it
IsNext(a,b,D) == GradedLess(a,b) /\ \A c \in D : ~(GradedLess(a,c) /\ GradedLess(c,b))
MNext(a) == LET n == Len(a) I == {i \in 1..(n-1) : a[i] > 0}
            IN IF I = {} THEN [i \in 1..n |-> IF i = 1 THEN a[n]+1 ELSE 0]
               ELSE LET k == Max(I) IN [i \in 1..n |-> IF i < k THEN a[i] ELSE IF i = k THEN a[k]-1 ELSE IF i = k+1 THEN a[n]+1 ELSE 0]
(* --------------------------------- algebra ------------------------------------- *)
PZero == <<>>
Co(p,a) == IF a \in DOMAIN p THEN p[a] ELSE "0"
PDom(p) == {a \in DOMAIN p : ~REq(p[a],"0")}
\* from a list of <<monomial,coefficient>>
PFrom(l) == LET D == {l[i][1] : i \in 1..Len(l)} IN [a \in D |-> R(l[CHOOSE i \in 1..Len(l) : l[i][1] = a][2])]
PConst(n,c) == [a \in {MZero(n)} |-> c]
PAdd(p,q) == [a \in (DOMAIN p) \cup (DOMAIN q) |-> RAdd(Co(p,a),Co(q,a))]
PScale(p,c) == [a \in DOMAIN p |-> RMul(p[a],c)]
PNeg(p) == PScale(p,"-1")
PSub(p,q) == PAdd(p,PNeg(q))
PTermMul(p,m,c) == [a \in {MAdd(b,m) : b \in DOMAIN p} |-> RMul(c,p[[i \in 1..Len(a) |-> a[i]-m[i]]])]
PMul(p,q) == FoldSet(LAMBDA m, acc : PAdd(acc,PTermMul(p,m,q[m])),PZero,DOMAIN q)
RECURSIVE PPow(_,_,_)
PPow(p,n,k) == IF k = 0 THEN PConst(n,"1") ELSE IF k = 1 THEN p ELSE PMul(p,PPow(p,n,k-1))
PDer(p,k) == LET D == {a \in DOMAIN p : a[k] > 0} IN
             [b \in {[a EXCEPT ![k] = @-1] : a \in D} |-> RMul(RInt(b[k]+1),p[[b EXCEPT ![k] = @+1]])]
PAnti(p,k) == [b \in {[a EXCEPT ![k] = @+1] : a \in DOMAIN p} |-> RDiv(p[[b EXCEPT ![k] = @-1]],RInt(b[k]))]
PTrunc(p,d) == [a \in {b \in DOMAIN p : Deg(b) <= d} |-> p[a]]
RECURSIVE MVal(_,_,_)
MVal(a,x,i) == IF i > Len(a) THEN "1" ELSE IF a[i] = 0 THEN MVal(a,x,i+1) ELSE RMul(RPow(x[i],a[i]),MVal(a,x,i+1))
PEval(p,x) == FoldSet(LAMBDA a, s : RAdd(s,RMul(p[a],MVal(a,x,1))),"0",DOMAIN p)
Drop(a,k) == SubSeq(a,1,k-1) \o SubSeq(a,k+1,Len(a))
\* substitute the number c for variable k
PPart(p,k,c) == FoldSet(LAMBDA a, s : PAdd(s,[b \in {Drop(a,k)} |-> RMul(p[a],RPow(c,a[k]))]),PZero,DOMAIN p)
PEmbed(p,b,e) == [a \in {MZero(b) \o m \o MZero(e) : m \in DOMAIN p} |-> p[SubSeq(a,b+1,Len(a)-e)]]
RECURSIVE MComp(_,_,_,_)
MComp(a,g,m,i) == IF i > Len(a) THEN PConst(m,"1") ELSE IF a[i] = 0 THEN MComp(a,g,m,i+1) ELSE PMul(PPow(g[i],m,a[i]),MComp(a,g,m,i+1))
\* p(g_1,...,g_n), the g_i in m variables
PComp(p,g,m) == FoldSet(LAMBDA a, s : PAdd(s,PScale(MComp(a,g,m,1),p[a])),PZero,DOMAIN p)
PEq(p,q) == \A a \in (DOMAIN p) \cup (DOMAIN q) : REq(Co(p,a),Co(q,a))
PDegree(p) == IF PDom(p) = {} THEN 0 ELSE LET a == CHOOSE b \in PDom(p) : \A c \in PDom(p) : Deg(c) <= Deg(b) IN Deg(a)
PNorm(p) == FoldSet(LAMBDA a, s : RAdd(s,RAbs(p[a])),"0",DOMAIN p)
(* Chebyshev: value of sum c_k T_k(x) by the recurrence *)
RECURSIVE ChebF(_,_,_,_,_,_)
ChebF(c,x,k,t0,t1,s) == IF k > Len(c) THEN s ELSE ChebF(c,x,k+1,t1,RSub(RMul("2",RMul(x,t1)),t0),RAdd(s,RMul(c[k],t0)))
Cheb(c,x) == ChebF(c,x,1,"1",x,"0")
================================================================================
