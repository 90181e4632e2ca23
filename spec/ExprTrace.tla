------------------------------- MODULE ExprTrace -------------------------------
(* Symbolic expressions, formulae and procedures denote functions.  Every           *)
(* transformation (simplification, sharing of common subexpressions, substitution,   *)
(* conversion between the representations, differentiation) is compared with the      *)
(* denotation of what it was given; evaluation with the value; structural questions   *)
(* (constant, affine, polynomial, additive, arguments, identical, before) with the    *)
(* function and with the tree.                                                       *)
EXTENDS Term, FiniteSetsExt, TraceBase
VARIABLE l
E == Trace[l]
Pts(x) == [i \in 1..Len(x) |-> Pnt(R(x[i]))]
Mag(i) == RMax(RAbs(i[1]),RAbs(i[2]))
Fin(i) == RIsFin(i[1]) /\ RIsFin(i[2])
Disj(a,b) == RLt(a[2],b[1]) \/ RLt(b[2],a[1])
Over(a,b) == Fin(a) /\ Fin(b) /\ ~Disj(a,b)
Narrow(i) == RLe(RSub(i[2],i[1]),RMul(RTwoExp(-40),RAdd("1",Mag(i))))
(* ------------------------------ transformations --------------------------------- *)
RECURSIVE Subs(_,_,_)
Subs(pt,s,i) == IF i = 0 THEN pt ELSE Subs([pt EXCEPT ![s[i][1]] = Val(s[i][2],pt)],s,i-1)
OkTr(v) == \A i \in 1..Len(v.x) : LET x == Pts(v.x[i]) a == Val(v.p,Subs(x,v.s,Len(v.s))) b == Val(v.q,x) IN Over(a,b) /\ Narrow(b)
Unit(n,k) == [i \in 1..n |-> Pnt(IF i = k THEN "1" ELSE "0")]
OkDer(v) == \A i \in 1..Len(v.x) : LET x == Pts(v.x[i]) s == Ser(v.p,x,Unit(Len(x),v.k),1) b == Val(v.q,x) IN Fin(s[2]) => (Over(s[2],b) /\ Narrow(b))
(* ----------------------------------- values ---------------------------------------- *)
Obj(o) == CASE o[1] = "b" -> <<R(o[2]),R(o[3])>> [] o[1] = "a" -> <<R(o[2]),R(o[2])>> [] OTHER -> <<"nan","nan">>
MaxMag(vs) == FoldSet(LAMBDA i, m : RMax(m,Mag(vs[i])),"1",1..Len(vs))
OkObj(val,o,tol) == LET r == Obj(o) IN /\ (o[1] = "b" => (True(val,r)))
                                        /\ Near(val,r[1],tol) /\ Near(val,r[2],tol)
OkVal(v) == LET vs == Vals(v.p,Pts(v.x)) m == MaxMag(vs) tol == RMul(RTwoExp(-26),RMul(m,m)) IN
            \A i \in 1..Len(v.r) : OkObj(vs[Len(vs)],v.r[i][2],tol)
SMag(all) == FoldSet(LAMBDA i, m : RMax(m,FoldSet(LAMBDA k, n : RMax(n,Mag(all[i][k])),"1",1..Len(all[i]))),"1",1..Len(all))
OkGrad(v) == LET x == Pts(v.x) n == Len(x) IN
   Len(v.g) = n /\ Len(v.a) = n /\ \A k \in 1..n :
     LET all == SerFrom(v.p,1,<<>>,x,Unit(n,k),1) s == all[Len(all)] m == SMag(all) tol == RMul(RTwoExp(-26),RMul(m,RMul(m,m))) IN
     Fin(s[2]) => (OkObj(s[2],v.g[k],tol) /\ OkObj(s[2],v.a[k],tol))   \* sqrt(0) has no derivative
OkHess(v) == LET x == Pts(v.x) n == Len(x) all == SerFrom(v.p,1,<<>>,x,Pts(v.d),2) s == all[Len(all)] m == SMag(all) tol == RMul(RTwoExp(-24),RMul(m,RMul(m,m))) IN
             Fin(s[3]) => OkObj(IScl(2,s[3]),v.h,tol)
(* ------------------------------ structural questions --------------------------------- *)
Leaf(nd) == nd[1] \in {"cst","ci","cn","pi","var"}
Args(nd) == IF Leaf(nd) THEN {} ELSE IF nd[1] = "pow" \/ Len(nd) = 2 THEN {nd[2]} ELSE {nd[2],nd[3]}
Rng(s) == {s[i] : i \in 1..Len(s)}
\* properties of the nodes from the first to the last: f(node,properties so far)
SX == INSTANCE SequencesExt
Up(p,i,acc,F(_,_)) == SX!FoldLeft(LAMBDA a, nd : Append(a,F(nd,a)),acc,p)
VarsOf(p) == LET s == Up(p,1,<<>>,LAMBDA nd, a : IF nd[1] = "var" THEN {nd[2]} ELSE UNION {a[j] : j \in Args(nd)}) IN s[Len(s)]
\* <<constant, affine, polynomial, polynomial without negative powers of constants>> in the variables ks, by the form of the expression
FormOf(p,ks) == LET F(nd,a) ==
     LET o == nd[1] IN
     IF o = "var" THEN <<~(nd[2] \in ks),TRUE,TRUE,TRUE>>
     ELSE IF Leaf(nd) THEN <<TRUE,TRUE,TRUE,TRUE>>
     ELSE LET c == \A j \in Args(nd) : a[j][1]
              aff == \A j \in Args(nd) : a[j][2]
              pol == \A j \in Args(nd) : a[j][3]
              pos == \A j \in Args(nd) : a[j][4] IN
          IF o = "pow" /\ nd[3] = 0 THEN <<TRUE,TRUE,TRUE,TRUE>> ELSE
          <<c, c \/ CASE o \in {"neg","pos","hlf","add","sub"} -> aff
                      [] o = "mul" -> aff /\ (a[nd[2]][1] \/ a[nd[3]][1])
                      [] o = "div" -> aff /\ a[nd[3]][1]
                      [] o = "pow" -> nd[3] = 1 /\ aff
                      [] OTHER -> FALSE,
            c \/ CASE o \in {"neg","pos","hlf","add","sub","mul","sqr"} -> pol
                   [] o = "div" -> pol /\ a[nd[3]][1]
                   [] o = "pow" -> nd[3] >= 0 /\ pol
                   [] OTHER -> FALSE,
            CASE o \in {"neg","pos","hlf","add","sub","mul","sqr"} -> pos
              [] o = "div" -> pos /\ a[nd[3]][1]
              [] o = "pow" -> nd[3] >= 0 /\ pos
              [] OTHER -> c>>
   IN Up(p,1,<<>>,F)
Form(p,ks) == LET s == FormOf(p,ks) IN s[Len(s)]
\* the point x with the coordinates in ks replaced by those of the fraction t of the box
Move(x,box,ks,t) == [i \in 1..Len(x) |-> IF i \in ks THEN Pnt(RAdd(R(box[i][1]),RMul(t,RSub(R(box[i][2]),R(box[i][1]))))) ELSE x[i]]
Sem(p,x,box,ks,t) == Val(p,Move(x,box,ks,t))
SemCon(p,x,box,ks) == LET a == Sem(p,x,box,ks,"0") b == Sem(p,x,box,ks,"5/8") IN ~Disj(a,b)
SemAff(p,x,box,ks) == LET a == Sem(p,x,box,ks,"1/8") b == Sem(p,x,box,ks,"1/2") c == Sem(p,x,box,ks,"7/8") IN ~Disj(IAdd(a,c),IAdd(b,b))
Xs(v) == [i \in 1..Len(v.x) |-> Pts(v.x[i])]
AllX(v,P(_)) == \A i \in 1..Len(v.x) : P(Pts(v.x[i]))
\* every variable of ks occurs in at most one component, and there with coefficient one
Additive(ps,ks,v) == \A k \in ks :
   LET occ == {i \in 1..Len(ps) : k \in VarsOf(ps[i])} IN
   Cardinality({i \in 1..Len(ps) : ~Form(ps[i],{k})[1]}) <= 1
   /\ \A i \in occ : Form(ps[i],{k})[1] \/ AllX(v,LAMBDA x : LET s == Ser(ps[i],x,Unit(Len(x),k),1) IN ~Disj(s[2],Pnt("1")) /\ Form(ps[i],{k})[2])
\* for formulas, a constant multiplier is allowed
AdditiveF(ps,ks,v) == \A k \in ks : Cardinality({i \in 1..Len(ps) : ~Form(ps[i],{k})[1]}) <= 1 /\ \A i \in 1..Len(ps) : AllX(v,LAMBDA x : SemAff(ps[i],x,v.box,{k}))
OkQry(v) == LET ks == Rng(v.k) f == Form(v.p,ks) g == Form(v.p2,ks) b == v.box IN
   /\ v.con = f[1] /\ v.aff = f[2] /\ (v.pol => f[3]) /\ (f[4] => v.pol)
   /\ v.vcon = (f[1] /\ g[1]) /\ v.vaff = (f[2] /\ g[2]) /\ (v.vpol => (f[3] /\ g[3])) /\ ((f[4] /\ g[4]) => v.vpol)
   /\ (v.con => (AllX(v,LAMBDA x : SemCon(v.p,x,b,ks))))
   /\ (v.aff => (AllX(v,LAMBDA x : SemAff(v.p,x,b,ks))))
   /\ (v.vaff => (AllX(v,LAMBDA x : SemAff(v.p2,x,b,ks))))
   /\ ((v.addv = "T") => Additive(<<v.p,v.p2>>,ks,v))
   /\ (v.add1 => (Form(v.p,{v.k1})[2] /\ AllX(v,LAMBDA x : LET s == Ser(v.p,x,Unit(Len(x),v.k1),1) IN ~Disj(s[2],Pnt("1")) \/ ~Disj(s[2],Pnt("0")))))
   /\ Rng(v.args) = VarsOf(v.p) /\ Rng(v.args2) = VarsOf(v.p) /\ Len(v.args) = Cardinality(VarsOf(v.p))
OkFqry(v) == LET ks == Rng(v.k) f == Form(v.p,ks) g == Form(v.p2,ks) IN
   /\ v.vaff = (f[2] /\ g[2])
   /\ (v.vaff => (AllX(v,LAMBDA x : SemAff(v.p,x,v.box,ks) /\ SemAff(v.p2,x,v.box,ks))))
   /\ ((v.addv = "T") => AdditiveF(<<v.p,v.p2>>,ks,v))
OkVqry(v) == LET ks == Rng(v.k) IN
   /\ (v.con => (AllX(v,LAMBDA x : SemCon(v.p,x,v.box,ks))))
   /\ (v.aff => (AllX(v,LAMBDA x : SemAff(v.p,x,v.box,ks))))
(* --------------------------------- trees and sharing ----------------------------------- *)
\* class of every node of a program: the first node with an equal tree
ClassOf(p) == LET F(nd,a) ==
     LET key == <<nd[1],[j \in 2..Len(nd) |-> IF Leaf(nd) \/ (nd[1] = "pow" /\ j = 3) THEN nd[j] ELSE a[nd[j]][1]]>>
         old == {i \in 1..Len(a) : a[i][2] = key} IN
     <<IF old = {} THEN Len(a)+1 ELSE CHOOSE i \in old : \A j \in old : i <= j,key>>
   IN Up(p,1,<<>>,F)
Distinct(p) == LET c == ClassOf(p) IN Cardinality({c[i][1] : i \in 1..Len(c)})
DblNode(nd) == LET a == R(nd[2][2]) b == R(nd[2][3]) IN REq(a,b) /\ REq(a,RRoundDn(a,53,-1000))
AllDbl(t) == \A i \in 1..Len(t) : t[i][1] = "cn" => DblNode(t[i])
OkCnt(v) == /\ v.n = Len(v.t) /\ v.q = Len(v.g)
            /\ v.d <= v.q /\ v.d <= Distinct(v.g) /\ Distinct(v.t) = Distinct(v.g) /\ (AllDbl(v.t) => v.d = Distinct(v.g))
            /\ (v.cse /\ AllDbl(v.t)) => v.q = v.d
\* are two trees (unshared, same order) certainly the same, certainly different
CnIv(a) == <<R(a[2][2]),R(a[2][3])>>
IsDbl(q) == REq(q,RRoundDn(q,53,-30))
SameNode(a,b) == Len(a) = Len(b) /\ a[1] = b[1] /\ IF a[1] = "cn" THEN a[3] = b[3] /\ REq(CnIv(a)[1],CnIv(a)[2]) /\ IsDbl(CnIv(a)[1]) /\ REq(CnIv(b)[1],CnIv(b)[2]) /\ REq(CnIv(a)[1],CnIv(b)[1]) ELSE IF a[1] = "ci" THEN a = b /\ REq(R(a[2]),R(a[3])) /\ IsDbl(R(a[2])) ELSE \A j \in 2..Len(a) : a[j] = b[j]
LikeNode(a,b) == Len(a) = Len(b) /\ a[1] = b[1] /\ IF a[1] = "cn" THEN a[3] = b[3] /\ ~Disj(CnIv(a),CnIv(b)) ELSE IF a[1] = "ci" THEN ~Disj(<<R(a[2]),R(a[3])>>,<<R(b[2]),R(b[3])>>) ELSE \A j \in 2..Len(a) : a[j] = b[j]
\* certainly different, with constants that are not very close
NearNode(a,b) == Len(a) = Len(b) /\ a[1] = b[1] /\ IF a[1] = "cn" THEN a[3] = b[3] /\ RLe(RAbs(RSub(CnIv(a)[1],CnIv(b)[1])),RTwoExp(-30)) ELSE \A j \in 2..Len(a) : a[j] = b[j]
SameTree(s,t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameNode(s[i],t[i])
LikeTree(s,t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : LikeNode(s[i],t[i])
NearTree(s,t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : NearNode(s[i],t[i])
OkSame(v) == /\ (v.r => (LikeTree(v.a,v.b)))
             /\ (SameTree(v.a,v.b) => (v.r))
OkOrd(v) == LET n == Len(v.t) IN
  /\ \A i \in 1..n : ~v.b[i][i] /\ v.id[i][i]
  /\ \A i,j \in 1..n : ~(v.b[i][j] /\ v.b[j][i]) /\ v.id[i][j] = v.id[j][i]
  /\ \A i,j,k \in 1..n : ((v.b[i][j] /\ v.b[j][k]) => v.b[i][k])
  /\ \A i,j \in 1..n : /\ (v.id[i][j] => (LikeTree(v.t[i],v.t[j])))
                        /\ (SameTree(v.t[i],v.t[j]) => (v.id[i][j] /\ ~v.b[i][j]))
                        /\ (~NearTree(v.t[i],v.t[j]) => ((v.b[i][j] \/ v.b[j][i])))
OkIsc(v) == (v.r => REq(R(v.c),R(v.d))) /\ ((REq(R(v.c),R(v.d)) /\ IsDbl(R(v.c))) => v.r) /\ v.v /\ ~v.w /\ ~v.cv /\ ~v.vc
(* ------------------------------------ predicates ------------------------------------------ *)
N3(a) == CASE a = "T" -> "F" [] a = "F" -> "T" [] OTHER -> "I"
A3(a,b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "T" /\ b = "T" THEN "T" ELSE "I"
O3(a,b) == N3(A3(N3(a),N3(b)))
Gap == RTwoExp(-20)
\* the answers allowed to the question a<b
LtSet(a,b) == IF RLt(a[2],b[1]) THEN IF RLt(RAdd(a[2],Gap),b[1]) THEN {"T"} ELSE {"T","I"}
              ELSE IF RLt(b[2],a[1]) THEN IF RLt(RAdd(b[2],Gap),a[1]) THEN {"F"} ELSE {"F","I"} ELSE {"T","F","I"}
EqSet(a,b) == IF ~Disj(a,b) THEN {"T","F","I"} ELSE IF RLt(RAdd(a[2],Gap),b[1]) \/ RLt(RAdd(b[2],Gap),a[1]) THEN {"F"} ELSE {"F","I"}
Not3(s) == {N3(a) : a \in s}
Cmp(op,a,b) == CASE op \in {"lt","le"} -> LtSet(a,b) [] op \in {"gt","ge"} -> LtSet(b,a) [] op = "eq" -> EqSet(a,b) [] op = "ne" -> Not3(EqSet(a,b))
RECURSIVE Truth(_,_)
Truth(f,vs) == CASE f[1] = "cmp" -> IF f[3] = f[4] THEN (IF f[2] \in {"le","ge","eq"} THEN {"T","I"} ELSE {"F","I"}) ELSE Cmp(f[2],vs[f[3]],vs[f[4]])
                 [] f[1] = "sgn" -> LtSet(Pnt("0"),vs[f[2]])
                 [] f[1] = "k" -> {f[2]}
                 [] f[1] = "not" -> Not3(Truth(f[2],vs))
                 [] f[1] = "and" -> {A3(a,b) : a \in Truth(f[2],vs), b \in Truth(f[3],vs)}
                 [] f[1] = "or" -> {O3(a,b) : a \in Truth(f[2],vs), b \in Truth(f[3],vs)}
\* the nodes whose values a predicate looks at
RECURSIVE Seen(_)
Seen(f) == CASE f[1] = "cmp" -> {f[3],f[4]} [] f[1] = "sgn" -> {f[2]} [] f[1] = "k" -> {} [] f[1] = "not" -> Seen(f[2]) [] OTHER -> Seen(f[2]) \cup Seen(f[3])
RECURSIVE HasEq(_)
HasEq(f) == CASE f[1] = "cmp" -> f[2] \in {"eq","ne"} [] f[1] \in {"sgn","k"} -> FALSE [] f[1] = "not" -> HasEq(f[2]) [] OTHER -> HasEq(f[2]) \/ HasEq(f[3])
NodeVars(p) == Up(p,1,<<>>,LAMBDA nd, a : IF nd[1] = "var" THEN {nd[2]} ELSE UNION {a[j] : j \in Args(nd)})
\* the sign of an indicator agrees with the answers
Ind(i,s,t) == IF i[1] = "no" THEN TRUE ELSE LET y == Val(i[2],s) IN
              /\ Fin(y)
              /\ (RLt("0",y[1]) => ("T" \in t))
              /\ (RLt(y[2],"0") => ("F" \in t))
IndNeg(i,s,t) == Ind(i,s,Not3(t))
OkPred(v) == LET x == Pts(v.x) vs == Vals(v.p,x) t == Truth(v.f,vs) nv == NodeVars(v.p) IN
   /\ v.v \in t /\ v.s \in t /\ v.u \in t
   /\ Ind(v.ip,x,t) /\ IndNeg(v.in,x,t)
   /\ (HasEq(v.f) \/ (v.ip[1] = "ok" /\ v.in[1] = "ok"))
   /\ Rng(v.args) = UNION {nv[j] : j \in Seen(v.f)}
OkOpp(v) == v.r \in {"T","F"} /\ (v.r = "T" => AllX(v,LAMBDA x : LET vs == Vals(v.p,x) a == Truth(v.a,vs) b == Truth(v.b,vs) IN a \cap Not3(b) # {}))
(* ------------------------------- integers, strings, booleans ------------------------------- *)
RECURSIVE ZV(_,_)
ZV(f,v) == CASE f[1] = "z" -> f[2] [] f[1] = "v" -> v[f[2]] [] f[1] = "neg" -> -ZV(f[2],v) [] f[1] = "pos" -> ZV(f[2],v)
             [] f[1] = "add" -> ZV(f[2],v)+ZV(f[3],v) [] f[1] = "sub" -> ZV(f[2],v)-ZV(f[3],v) [] f[1] = "mul" -> ZV(f[2],v)*ZV(f[3],v)
RECURSIVE BV(_,_)
BV(f,v) == CASE f[1] = "not" -> ~BV(f[2],v) [] f[1] = "and" -> BV(f[2],v) /\ BV(f[3],v) [] f[1] = "or" -> BV(f[2],v) \/ BV(f[3],v)
             [] f[1] = "seq" -> v[f[2]] = f[3] [] f[1] = "sne" -> v[f[2]] # f[3]
             [] f[1] = "eq" -> ZV(f[2],v) = ZV(f[3],v) [] f[1] = "ne" -> ZV(f[2],v) # ZV(f[3],v) [] f[1] = "le" -> ZV(f[2],v) <= ZV(f[3],v)
             [] f[1] = "ge" -> ZV(f[2],v) >= ZV(f[3],v) [] f[1] = "lt" -> ZV(f[2],v) < ZV(f[3],v) [] f[1] = "gt" -> ZV(f[2],v) > ZV(f[3],v)
RECURSIVE BA(_)
BA(f) == CASE f[1] = "z" -> {} [] f[1] \in {"v","seq","sne"} -> {f[2]} [] f[1] \in {"not","neg","pos"} -> BA(f[2]) [] OTHER -> BA(f[2]) \cup BA(f[3])
(* ----------------------------------------- spaces ------------------------------------------- *)
Has(s,v) == v \in Rng(s)
Ins(s,v) == IF Has(s,v) THEN s ELSE Append(s,v)
RECURSIVE Adj(_,_,_)
Adj(s,t,i) == IF i > Len(t) THEN s ELSE Adj(Ins(s,t[i]),t,i+1)
RECURSIVE Spc(_,_,_)
Spc(s,ops,i) == IF i > Len(ops) THEN s ELSE LET o == ops[i] IN
   Spc(CASE o[1] = "ins" -> Ins(s,o[2]) [] o[1] = "app" -> (IF Has(s,o[2]) THEN (IF o[3] = "no" THEN s ELSE <<>>) ELSE (IF o[3] = "ok" THEN Append(s,o[2]) ELSE <<>>)) [] o[1] = "adj" -> Adj(s,o[2],1),ops,i+1)
IxOf(s,v) == IF Has(s,v) THEN (CHOOSE i \in 1..Len(s) : s[i] = v)-1 ELSE -1
OkSpc(v) == LET s == Spc(<<>>,v.ops,1) IN
   /\ v.names = s /\ v.names2 = s /\ v.size = Len(s) /\ v.self
   /\ \A j \in 1..Len(v.ix) : LET r == v.ix[j] k == IxOf(s,r[1]) IN r[2] = k /\ r[3] = k /\ r[4] = (k >= 0) /\ r[5] = k /\ r[6] = k
Ok(v) == CASE v.ev = "tr" -> OkTr(v) [] v.ev = "der" -> OkDer(v) [] v.ev = "val" -> OkVal(v) [] v.ev = "grad" -> OkGrad(v) [] v.ev = "hess" -> OkHess(v)
           [] v.ev = "qry" -> OkQry(v) [] v.ev = "fqry" -> OkFqry(v) [] v.ev = "vqry" -> OkVqry(v)
           [] v.ev = "cnt" -> OkCnt(v) [] v.ev = "idem" -> TRUE [] v.ev = "same" -> OkSame(v) [] v.ev = "ord" -> OkOrd(v) [] v.ev = "isc" -> OkIsc(v) [] v.ev = "kin" -> v.k = (IF v.o \in {"add","sub","mul","div","max","min"} THEN "binary" ELSE IF v.o = "pow" THEN "graded" ELSE IF v.o = "var" THEN "variable" ELSE IF v.o = "cnst" THEN "nullary" ELSE "unary")
           [] v.ev = "pred" -> OkPred(v) [] v.ev = "opp" -> OkOpp(v)
           [] v.ev = "zexp" -> ZV(v.f,v.v) = v.r [] v.ev = "bexp" -> BV(v.f,v.v) = v.r /\ Rng(v.args) = BA(v.f) [] v.ev = "spc" -> OkSpc(v)
           [] OTHER -> FALSE
Why(v) == v.ev
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),Why(E)) /\ l' = l+1 /\ Done(l+1)
Spec == Init /\ [][Next]_l
================================================================================
