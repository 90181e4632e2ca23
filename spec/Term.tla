--------------------------------- MODULE Term ---------------------------------
(* Real functions given by straight-line programs, and their exact meaning.       *)
(*                                                                               *)
(* A program is a sequence of nodes; a node is <<op,args...>> where arguments are *)
(* (1-based) numbers of earlier nodes:                                           *)
(*   <<"cst",q>>  the rational constant q      <<"var",i>>  the i-th variable     *)
(*   <<"ci",l,u>> a real constant known to lie between the rationals l and u       *)
(*   <<"pi">>     the constant pi              <<"pow",a,n>> integer power        *)
(*   <<f,a>>      f in neg pos sqr rec hlf sqrt exp log sin cos tan asin acos     *)
(*                atan abs                                                        *)
(*   <<f,a,b>>    f in add sub mul div max min                                    *)
(* The last node is the value.  Val gives the value at a point by rational        *)
(* intervals so narrow (relative 2^-200) that they stand for the real number;     *)
(* Ser gives the Taylor coefficients of t |-> f(x+t*d), by the classical          *)
(* recurrences of power series.                                                  *)
EXTENDS Enclosure, Sequences, Integers
TP == 220
Nrm(i) == <<IF RIsFin(i[1]) THEN RRoundDn(i[1],TP,-3000) ELSE i[1],IF RIsFin(i[2]) THEN RRoundUp(i[2],TP,-3000) ELSE i[2]>>
Pnt(q) == <<q,q>>
TAdd(x,y) == Nrm(IAdd(x,y))
TSub(x,y) == Nrm(ISub(x,y))
TMul(x,y) == Nrm(IMul(x,y))
TDiv(x,y) == Nrm(IDiv(x,y))
TElem(f,x) == Nrm(Img(f,<<x>>,0)[2])
PiI == <<PiLo,PiHi>>
Node(nd,v,pt) ==
  LET o == nd[1] IN
  CASE o = "cst" -> Pnt(R(nd[2]))
    [] o = "ci" -> <<R(nd[2]),R(nd[3])>>
    [] o = "var" -> pt[nd[2]]
    [] o = "pi" -> PiI
    [] o = "add" -> TAdd(v[nd[2]],v[nd[3]])
    [] o = "sub" -> TSub(v[nd[2]],v[nd[3]])
    [] o = "mul" -> TMul(v[nd[2]],v[nd[3]])
    [] o = "div" -> TDiv(v[nd[2]],v[nd[3]])
    [] o = "max" -> Img("max",<<v[nd[2]],v[nd[3]]>>,0)[1]
    [] o = "min" -> Img("min",<<v[nd[2]],v[nd[3]]>>,0)[1]
    [] o = "neg" -> INeg(v[nd[2]])
    [] o = "pos" -> v[nd[2]]
    [] o = "hlf" -> Nrm(Img("hlf",<<v[nd[2]]>>,0)[1])
    [] o = "abs" -> IAbs(v[nd[2]])
    [] o = "sqr" -> Nrm(IPosPow(v[nd[2]],2))
    [] o = "rec" -> Nrm(IRec(v[nd[2]]))
    [] o = "pow" -> Nrm(IPow(v[nd[2]],nd[3]))
    [] OTHER -> TElem(o,v[nd[2]])
RECURSIVE ValFrom(_,_,_,_)
ValFrom(p,i,v,pt) == IF i > Len(p) THEN v ELSE ValFrom(p,i+1,Append(v,Node(p[i],v,pt)),pt)
\* values of all nodes at the point pt (a sequence of intervals)
Vals(p,pt) == ValFrom(p,1,<<>>,pt)
Val(p,pt) == LET v == Vals(p,pt) IN v[Len(v)]
ValQ(p,qs) == Val(p,[i \in 1..Len(qs) |-> Pnt(R(qs[i]))])

(* ------------------------------ power series ---------------------------------- *)
RECURSIVE ISumTo(_,_,_,_)
ISumTo(f,i,k,acc) == IF i > k THEN acc ELSE ISumTo(f,i+1,k,TAdd(acc,f[i]))
ISum(f,lo,hi) == ISumTo(f,lo,hi,Pnt("0"))            \* sum of f[lo..hi]
IScl(k,x) == TMul(Pnt(RInt(k)),x)
IOver(x,k) == TDiv(x,Pnt(RInt(k)))
C0(q,n) == [k \in 1..(n+1) |-> IF k = 1 THEN q ELSE Pnt("0")]
SAdd(a,b) == [k \in 1..Len(a) |-> TAdd(a[k],b[k])]
SSub(a,b) == [k \in 1..Len(a) |-> TSub(a[k],b[k])]
SNeg(a) == [k \in 1..Len(a) |-> INeg(a[k])]
\* (a*b)_k with indices from 1: sum of a[i]*b[k+1-i]
SMul(a,b) == [k \in 1..Len(a) |-> ISum([i \in 1..k |-> TMul(a[i],b[k+1-i])],1,k)]
RECURSIVE SDivF(_,_,_)
SDivF(a,b,c) == LET k == Len(c)+1 IN
  IF k > Len(a) THEN c
  ELSE SDivF(a,b,Append(c,TDiv(TSub(a[k],ISum([i \in 1..(k-1) |-> TMul(c[i],b[k+1-i])],1,k-1)),b[1])))
SDiv(a,b) == SDivF(a,b,<<>>)
RECURSIVE SPow(_,_)
SPow(a,n) == IF n = 0 THEN C0(Pnt("1"),Len(a)-1) ELSE IF n < 0 THEN SDiv(C0(Pnt("1"),Len(a)-1),SPow(a,-n)) ELSE IF n = 1 THEN a ELSE SMul(a,SPow(a,n-1))
RECURSIVE SSqrtF(_,_)
SSqrtF(a,c) == LET k == Len(c)+1 IN
  IF k > Len(a) THEN c
  ELSE SSqrtF(a,Append(c,TDiv(TSub(a[k],ISum([i \in 2..(k-1) |-> TMul(c[i],c[k+1-i])],2,k-1)),IScl(2,c[1]))))
SSqrt(a) == SSqrtF(a,<<TElem("sqrt",a[1])>>)
\* solve c' = a' * g(c): (k-1) c_k = sum_{i=2..k} (i-1) a_i g_{k+1-i}
Conv(a,g,k) == IOver(ISum([i \in 2..k |-> TMul(IScl(i-1,a[i]),g[k+1-i])],2,k),k-1)
RECURSIVE SExpF(_,_)
SExpF(a,c) == LET k == Len(c)+1 IN IF k > Len(a) THEN c ELSE SExpF(a,Append(c,Conv(a,c,k)))
SExp(a) == SExpF(a,<<TElem("exp",a[1])>>)
RECURSIVE SSinCosF(_,_,_)
SSinCosF(a,s,c) == LET k == Len(c)+1 IN
  IF k > Len(a) THEN <<s,c>> ELSE SSinCosF(a,Append(s,Conv(a,c,k)),Append(c,INeg(Conv(a,s,k))))
SSinCos(a) == SSinCosF(a,<<TElem("sin",a[1])>>,<<TElem("cos",a[1])>>)
\* integrate a'*g with constant term c0
SInt(a,g,c0) == [k \in 1..Len(a) |-> IF k = 1 THEN c0 ELSE Conv(a,g,k)]
One1(a) == C0(Pnt("1"),Len(a)-1)
Negative(i) == RLt(i[2],Zero)
SNode(nd,v,x,d,n) ==
  LET o == nd[1] a == IF o \in {"cst","ci","var","pi"} THEN <<>> ELSE v[nd[2]] IN
  CASE o = "cst" -> C0(Pnt(R(nd[2])),n)
    [] o = "pi" -> C0(PiI,n)
    [] o = "ci" -> C0(<<R(nd[2]),R(nd[3])>>,n)
    [] o = "var" -> [k \in 1..(n+1) |-> IF k = 1 THEN x[nd[2]] ELSE IF k = 2 THEN d[nd[2]] ELSE Pnt("0")]
    [] o = "add" -> SAdd(a,v[nd[3]])
    [] o = "sub" -> SSub(a,v[nd[3]])
    [] o = "mul" -> SMul(a,v[nd[3]])
    [] o = "div" -> SDiv(a,v[nd[3]])
    [] o = "max" -> IF RLe(v[nd[3]][1][2],a[1][1]) THEN a ELSE v[nd[3]]
    [] o = "min" -> IF RLe(v[nd[3]][1][2],a[1][1]) THEN v[nd[3]] ELSE a
    [] o = "neg" -> SNeg(a)
    [] o = "pos" -> a
    [] o = "hlf" -> [k \in 1..Len(a) |-> IOver(a[k],2)]
    [] o = "abs" -> IF Negative(a[1]) THEN SNeg(a) ELSE a
    [] o = "sqr" -> SMul(a,a)
    [] o = "rec" -> SDiv(One1(a),a)
    [] o = "pow" -> SPow(a,nd[3])
    [] o = "sqrt" -> SSqrt(a)
    [] o = "exp" -> SExp(a)
    [] o = "log" -> SInt(a,SDiv(One1(a),a),TElem("log",a[1]))
    [] o = "sin" -> SSinCos(a)[1]
    [] o = "cos" -> SSinCos(a)[2]
    [] o = "tan" -> LET sc == SSinCos(a) IN SDiv(sc[1],sc[2])
    [] o = "atan" -> SInt(a,SDiv(One1(a),SAdd(One1(a),SMul(a,a))),TElem("atan",a[1]))
    [] o = "asin" -> SInt(a,SDiv(One1(a),SSqrt(SSub(One1(a),SMul(a,a)))),TElem("asin",a[1]))
    [] o = "acos" -> LET r == SInt(a,SDiv(One1(a),SSqrt(SSub(One1(a),SMul(a,a)))),Pnt("0")) IN [k \in 1..Len(a) |-> IF k = 1 THEN TElem("acos",a[1]) ELSE INeg(r[k])]
RECURSIVE SerFrom(_,_,_,_,_,_)
SerFrom(p,i,v,x,d,n) == IF i > Len(p) THEN v ELSE SerFrom(p,i+1,Append(v,SNode(p[i],v,x,d,n)),x,d,n)
\* Taylor coefficients 0..n (as a sequence) of t |-> p(x+t*d), x and d sequences of intervals
Ser(p,x,d,n) == LET v == SerFrom(p,1,<<>>,x,d,n) IN v[Len(v)]
SerQ(p,xs,ds,n) == Ser(p,[i \in 1..Len(xs) |-> Pnt(R(xs[i]))],[i \in 1..Len(ds) |-> Pnt(R(ds[i]))],n)
\* the interval v stands for a real number: the object is true of it unless they are disjoint
True(v,r) == ~RIsNan(r[1]) /\ ~RIsNan(r[2]) /\ RLe(r[1],v[2]) /\ RLe(v[1],r[2])
\* |v - q| <= tol
Near(v,q,tol) == RIsFin(q) /\ RLe(RSub(v[1],tol),q) /\ RLe(q,RAdd(v[2],tol))
================================================================================
