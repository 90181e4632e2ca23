----------------------------- MODULE RatSelfTest -----------------------------
(* The Java class behind Rat, compared with plain TLA+ definitions on pairs      *)
(* <<n,d>> for all small fractions, and the brackets of the real functions with   *)
(* identities that determine them.                                                *)
EXTENDS Rat, Integers, TLC
VARIABLE x
N == -6..6
D == 1..5
F == N \X D
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b,a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
\* canonical string of n/d
Str(n,d) == LET g == Gcd(Abs(n),d) IN IF d \div g = 1 THEN ToString(n \div g) ELSE ToString(IF n < 0 THEN -((-n) \div g) ELSE n \div g) \o "/" \o ToString(d \div g)
S(f) == Str(f[1],f[2])
Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
FloorDiv(n,d) == IF n >= 0 THEN n \div d ELSE -((-n + d - 1) \div d)
RECURSIVE Pow(_,_)
Pow(b,k) == IF k = 0 THEN 1 ELSE b * Pow(b,k-1)
Check1(a) == /\ R(S(a)) = S(a) /\ R(ToString(a[1]*2) \o "/" \o ToString(a[2]*2)) = S(a)
             /\ RNeg(S(a)) = Str(-a[1],a[2]) /\ RAbs(S(a)) = Str(Abs(a[1]),a[2]) /\ RSgn(S(a)) = Sg(a[1])
             /\ RFloor(S(a)) = ToString(FloorDiv(a[1],a[2])) /\ RCeil(S(a)) = ToString(-FloorDiv(-a[1],a[2]))
             /\ \A k \in 0..3 : RPow(S(a),k) = Str(Pow(a[1],k),Pow(a[2],k))
             /\ \A k \in 1..3 : a[1] # 0 => RPow(S(a),-k) = RDiv("1",RPow(S(a),k))
             /\ RFrac(a[1],a[2]) = S(a)
             /\ \A p \in 1..3 : LET lo == RRoundDn(S(a),p,-3) hi == RRoundUp(S(a),p,-3) IN RLe(lo,S(a)) /\ RLe(S(a),hi) /\ hi = RNeg(RRoundDn(RNeg(S(a)),p,-3))
                  \* brute force over the format
                  /\ \A m \in 0..(Pow(2,p)-1) : \A e \in -3..4 : LET v == RMul(ToString(m),RTwoExp(e)) IN
                       /\ ~(RLt(lo,v) /\ RLe(v,S(a))) /\ ~(RLt(lo,RNeg(v)) /\ RLe(RNeg(v),S(a)))
                  /\ \E mm \in 0..(Pow(2,p)-1) : \E ee \in -3..4 : RAbs(lo) = RMul(ToString(mm),RTwoExp(ee))
Check2(a,b) == /\ RAdd(S(a),S(b)) = Str(a[1]*b[2]+b[1]*a[2],a[2]*b[2])
               /\ RSub(S(a),S(b)) = Str(a[1]*b[2]-b[1]*a[2],a[2]*b[2])
               /\ RMul(S(a),S(b)) = Str(a[1]*b[1],a[2]*b[2])
               /\ (b[1] # 0 => RDiv(S(a),S(b)) = Str(a[1]*b[2]*Sg(b[1]),a[2]*Abs(b[1])))
               /\ RCmp(S(a),S(b)) = Sg(a[1]*b[2]-b[1]*a[2])
               /\ RLt(S(a),S(b)) = (a[1]*b[2] < b[1]*a[2]) /\ RLe(S(a),S(b)) = (a[1]*b[2] <= b[1]*a[2]) /\ REq(S(a),S(b)) = (a[1]*b[2] = b[1]*a[2])
               /\ RMax(S(a),S(b)) = (IF a[1]*b[2] >= b[1]*a[2] THEN S(a) ELSE S(b)) /\ RMin(S(a),S(b)) = (IF a[1]*b[2] <= b[1]*a[2] THEN S(a) ELSE S(b))
\* brackets: lo <= hi, tight, and consistent with identities
T == "1/1000000000000000000000000000000"
Br(f,v) == <<RLo(f,v,120),RHi(f,v,120)>>
Near(i,v) == RLe(RSub(i[1],T),v) /\ RLe(v,RAdd(i[2],T))
Meets(i,j) == RLe(i[1],RAdd(j[2],T)) /\ RLe(j[1],RAdd(i[2],T))
Tight(i) == RLe(i[1],i[2]) /\ RLe(RSub(i[2],i[1]),T)
Prod(i,j) == LET s == {RMul(i[1],j[1]),RMul(i[1],j[2]),RMul(i[2],j[1]),RMul(i[2],j[2])} IN <<CHOOSE q \in s : \A y \in s : RLe(q,y), CHOOSE q \in s : \A y \in s : RLe(y,q)>>
Sum(i,j) == <<RAdd(i[1],j[1]),RAdd(i[2],j[2])>>
CheckF(a) == LET v == S(a) e == Br("exp",v) s == Br("sin",v) c == Br("cos",v) t == Br("atan",v) IN
   /\ Tight(s) /\ Tight(c) /\ Tight(t)
   /\ Near(Prod(e,Br("exp",RNeg(v))),"1")                                   \* exp(v)exp(-v)=1
   /\ Near(Sum(Prod(s,s),Prod(c,c)),"1")                                    \* sin^2+cos^2=1
   /\ Meets(Br("sin",RMul("2",v)),Prod(<<"2","2">>,Prod(s,c)))              \* sin 2v = 2 sin v cos v
   /\ Meets(Prod(Br("exp",RDiv(v,"2")),Br("exp",RDiv(v,"2"))),e)
   /\ (a[1] > 0 => Meets(Br("log",RMul(v,v)),Prod(<<"2","2">>,Br("log",v))) /\ Near(Prod(Br("sqrt",v),Br("sqrt",v)),v))
   /\ Meets(Sum(Br("exp",RLo("log",RAdd(RAbs(v),"1"),120)),<<"0","0">>),<<RAdd(RAbs(v),"1"),RAdd(RAbs(v),"1")>>)
   /\ Meets(Prod(<<RLo("tan",t[1],120),RHi("tan",t[2],120)>>,<<"1","1">>),<<v,v>>)
   /\ (Abs(a[1]) < a[2] => Meets(Sum(Br("asin",v),Br("acos",v)),<<RDiv(RLo("pi","0",120),"2"),RDiv(RHi("pi","0",120),"2")>>)
                           /\ Meets(<<RLo("sin",RLo("asin",v,120),120),RHi("sin",RHi("asin",v,120),120)>>,<<v,v>>))
\* Machin's formula fixes pi; e is the value of the series to 1e-20
Pi16 == RMul("16",RLo("atan","1/5",120))
ASSUME Near(Br("pi","0"),RSub(Pi16,RMul("4",RLo("atan","1/239",120))))
ASSUME Near(<<RSub(RLo("exp","1",120),"1/100000000000000000000"),RAdd(RHi("exp","1",120),"1/100000000000000000000")>>,RDecimal("2.71828182845904523536"))
ASSUME RDecimal("-1.25e-3") = "-1/800" /\ R("3b-2") = "3/4" /\ R("-5b3") = "-40" /\ RTwoExp(-3) = "1/8" /\ RSum(<<"1/2","1/3">>) = "5/6" /\ RDot(<<"1","2">>,<<"3","1/2">>) = "4"
ASSUME RAdd("inf","1") = "inf" /\ RSub("inf","inf") = "nan" /\ RMul("-inf","2") = "-inf" /\ RLe("-inf","0") /\ ~RLe("nan","0") /\ RIsNan(RDiv("1","0"))
Init == x \in F
Next == UNCHANGED x
Inv == Check1(x) /\ CheckF(x) /\ \A b \in F : Check2(x,b)
Spec == Init /\ [][Next]_x
===============================================================================
