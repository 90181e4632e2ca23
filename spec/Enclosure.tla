------------------------------ MODULE Enclosure ------------------------------
(* What Ariadne's number types mean.  Every concrete number is a finite piece of *)
(* information about a real number; its meaning is the set of reals that carry   *)
(* this information, here always an interval of the extended rationals:          *)
(*    <<"e",v>>    the exact value v                     [v,v]                   *)
(*    <<"b",l,u>>  lower and upper bounds                [l,u]                   *)
(*    <<"c",v,e>>  value and error (ball)                [v-e,v+e]               *)
(*    <<"l",l>>    lower bound                           [l,+inf]                *)
(*    <<"u",u>>    upper bound                           [-inf,u]                *)
(*    <<"p",u>>    positive upper bound, error bound     [0,u]                   *)
(*    <<"q",l>>    positive lower bound                  [max(l,0),+inf]         *)
(*    <<"a",v>>    approximation: no information         [-inf,+inf]             *)
(* An operation on such objects is correct when the image, under the real        *)
(* function, of every choice of reals from the arguments lies in the result.     *)
EXTENDS Rat, TLC, Naturals

Zero == "0"
One == "1"
PInf == "inf"
NInf == "-inf"

\* the interval <<lo,hi>> an object means
Set(x) ==
  CASE x[1] = "e" -> <<R(x[2]),R(x[2])>>
    [] x[1] = "b" -> <<R(x[2]),R(x[3])>>
    [] x[1] = "c" -> IF RIsFin(x[3]) THEN IF RIsFin(x[2]) THEN <<RSub(R(x[2]),R(x[3])),RAdd(R(x[2]),R(x[3]))>> ELSE <<"nan","nan">>
                     ELSE <<NInf,PInf>>                 \* no finite error: no information
    [] x[1] = "l" -> <<R(x[2]),PInf>>
    [] x[1] = "u" -> <<NInf,R(x[2])>>
    [] x[1] = "p" -> <<Zero,R(x[2])>>
    [] x[1] = "q" -> <<RMax(Zero,R(x[2])),PInf>>
    [] x[1] = "a" -> <<NInf,PInf>>
IsInterval(i) == ~RIsNan(i[1]) /\ ~RIsNan(i[2]) /\ RLe(i[1],i[2])
In(v,i) == RLe(i[1],v) /\ RLe(v,i[2])
Subset(i,j) == RLe(j[1],i[1]) /\ RLe(i[2],j[2])
Mid(i) == RDiv(RAdd(i[1],i[2]),"2")
Width(i) == RSub(i[2],i[1])
IMag(i) == RMax(RAbs(i[1]),RAbs(i[2]))

(* ---------- images of intervals under the real operations (exact hulls) ------ *)
\* product of two endpoints; 0*inf = 0, as the endpoint inf stands for arbitrarily large finite reals
EMul(a,b) == IF REq(a,Zero) \/ REq(b,Zero) THEN Zero ELSE RMul(a,b)
Min4(a,b,c,d) == RMin(RMin(a,b),RMin(c,d))
Max4(a,b,c,d) == RMax(RMax(a,b),RMax(c,d))
HasZero(i) == RLe(i[1],Zero) /\ RLe(Zero,i[2])
IAdd(x,y) == <<RAdd(x[1],y[1]),RAdd(x[2],y[2])>>
ISub(x,y) == <<RSub(x[1],y[2]),RSub(x[2],y[1])>>
IMul(x,y) == LET a == EMul(x[1],y[1]) b == EMul(x[1],y[2]) c == EMul(x[2],y[1]) d == EMul(x[2],y[2])
             IN <<Min4(a,b,c,d),Max4(a,b,c,d)>>
\* reciprocal of an interval without zero in its interior (an endpoint 0 gives an infinite endpoint)
IRec(x) == IF RLt(x[1],Zero) /\ RLt(Zero,x[2]) THEN <<NInf,PInf>>
           ELSE IF RLe(Zero,x[1])
                THEN <<IF x[2] = PInf THEN Zero ELSE RDiv(One,x[2]), IF REq(x[1],Zero) THEN PInf ELSE RDiv(One,x[1])>>
                ELSE <<IF REq(x[2],Zero) THEN NInf ELSE RDiv(One,x[2]), IF x[1] = NInf THEN Zero ELSE RDiv(One,x[1])>>
IDiv(x,y) == IMul(x,IRec(y))
INeg(x) == <<RNeg(x[2]),RNeg(x[1])>>
IAbs(x) == IF RLe(Zero,x[1]) THEN x ELSE IF RLe(x[2],Zero) THEN INeg(x) ELSE <<Zero,RMax(RNeg(x[1]),x[2])>>
IPowEnd(a,n) == IF RIsFin(a) THEN RPow(a,n) ELSE IF n = 0 THEN One ELSE IF a = PInf \/ n % 2 = 0 THEN PInf ELSE NInf
IPosPow(x,n) == IF n = 0 THEN <<One,One>>
                ELSE IF n % 2 = 1 THEN <<IPowEnd(x[1],n),IPowEnd(x[2],n)>>
                ELSE LET a == IAbs(x) IN <<IPowEnd(a[1],n),IPowEnd(a[2],n)>>
IPow(x,n) == IF n >= 0 THEN IPosPow(x,n) ELSE IPosPow(IRec(x),-n)
IHull(x,y) == <<RMin(x[1],y[1]),RMax(x[2],y[2])>>
IMeet(x,y) == <<RMax(x[1],y[1]),RMin(x[2],y[2])>>

(* For the transcendental functions the exact hull has irrational endpoints; a hull is given by two   *)
(* intervals <<inner,outer>>: inner is contained in, outer contains, the exact image.                 *)
Exact(i) == <<i,i>>
K == 260                       \* bits of the rational brackets
\* an increasing function f, with brackets RLo/RHi
IncImg(f,x) ==
  LET lo == <<RLo(f,x[1],K),RHi(f,x[1],K)>>
      hi == <<RLo(f,x[2],K),RHi(f,x[2],K)>>
  IN << <<lo[2],hi[1]>>, <<lo[1],hi[2]>> >>
DecImg(f,x) == << <<RHi(f,x[2],K),RLo(f,x[1],K)>>, <<RLo(f,x[2],K),RHi(f,x[1],K)>> >>
PiLo == RLo("pi",Zero,K)
PiHi == RHi("pi",Zero,K)
\* cos on <<a,b>>, finite: extrema at multiples of pi.
\* (k0 is the least integer with k0*pi >= a; decided with the brackets of pi, which separate
\*  k*pi from every rational that occurs here)
CosImg(x) ==
  IF ~RIsFin(x[1]) \/ ~RIsFin(x[2]) \/ RLt(RMul("2",PiHi),RSub(x[2],x[1]))
  THEN << <<"-1","1">>,<<"-1","1">> >>
  ELSE LET k0 == RCeil(RDiv(x[1],IF RLt(x[1],Zero) THEN PiLo ELSE PiHi))    \* k0*pi >= a up to 2^-K
           Even(k) == REq(RMul("2",RFloor(RDiv(k,"2"))),k)
           hits(k) == RLe(RMul(k,IF RLt(k,Zero) THEN PiLo ELSE PiHi),x[2]) /\ RLe(x[1],RMul(k,IF RLt(k,Zero) THEN PiHi ELSE PiLo))
           ks == {kk \in {RAdd(k0,"-1"),k0,RAdd(k0,"1"),RAdd(k0,"2"),RAdd(k0,"3")} : hits(kk)}
           top == \E kk \in ks : Even(kk)
           bot == \E kk \in ks : ~Even(kk)
           a0 == RLo("cos",x[1],K) a1 == RHi("cos",x[1],K) b0 == RLo("cos",x[2],K) b1 == RHi("cos",x[2],K)
       IN << << IF bot THEN "-1" ELSE RMin(a1,b1), IF top THEN "1" ELSE RMax(a0,b0) >>,
             << IF bot THEN "-1" ELSE RMin(a0,b0), IF top THEN "1" ELSE RMax(a1,b1) >> >>
SinImg(x) == \* sin(x) = cos(x - pi/2): extrema at (k+1/2) pi
  IF ~RIsFin(x[1]) \/ ~RIsFin(x[2]) \/ RLt(RMul("2",PiHi),RSub(x[2],x[1]))
  THEN << <<"-1","1">>,<<"-1","1">> >>
  ELSE LET k0 == RCeil(RSub(RDiv(x[1],PiLo),"1/2"))
           h(k) == RAdd(k,"1/2")
           Even(k) == REq(RMul("2",RFloor(RDiv(k,"2"))),k)
           hits(k) == RLe(RMul(h(k),IF RLt(h(k),Zero) THEN PiLo ELSE PiHi),x[2]) /\ RLe(x[1],RMul(h(k),IF RLt(h(k),Zero) THEN PiHi ELSE PiLo))
           ks == {kk \in {RAdd(k0,"-1"),k0,RAdd(k0,"1"),RAdd(k0,"2"),RAdd(k0,"3")} : hits(kk)}
           top == \E kk \in ks : Even(kk)
           bot == \E kk \in ks : ~Even(kk)
           a0 == RLo("sin",x[1],K) a1 == RHi("sin",x[1],K) b0 == RLo("sin",x[2],K) b1 == RHi("sin",x[2],K)
       IN << << IF bot THEN "-1" ELSE RMin(a1,b1), IF top THEN "1" ELSE RMax(a0,b0) >>,
             << IF bot THEN "-1" ELSE RMin(a0,b0), IF top THEN "1" ELSE RMax(a1,b1) >> >>

\* image of the intervals s (a sequence) under operation f; n is an integer parameter
Img(f,s,n) ==
  CASE f = "add" -> Exact(IAdd(s[1],s[2]))
    [] f = "sub" -> Exact(ISub(s[1],s[2]))
    [] f = "mul" -> Exact(IMul(s[1],s[2]))
    [] f = "div" -> Exact(IDiv(s[1],s[2]))
    [] f = "fma" -> Exact(IAdd(IMul(s[1],s[2]),s[3]))
    [] f = "nul" -> Exact(<<Zero,Zero>>)
    [] f = "pos" -> Exact(s[1])
    [] f = "neg" -> Exact(INeg(s[1]))
    [] f = "hlf" -> Exact(<<RDiv(s[1][1],"2"),RDiv(s[1][2],"2")>>)
    [] f = "shft" -> Exact(<<RMul(s[1][1],RTwoExp(n)),RMul(s[1][2],RTwoExp(n))>>)
    [] f = "sqr" -> Exact(IPosPow(s[1],2))
    [] f = "rec" -> Exact(IRec(s[1]))
    [] f = "pow" -> Exact(IPow(s[1],n))
    [] f = "abs" -> Exact(IAbs(s[1]))
    [] f = "max" -> Exact(<<RMax(s[1][1],s[2][1]),RMax(s[1][2],s[2][2])>>)
    [] f = "min" -> Exact(<<RMin(s[1][1],s[2][1]),RMin(s[1][2],s[2][2])>>)
    [] f = "hull" -> Exact(IHull(s[1],s[2]))
    [] f = "meet" -> Exact(IMeet(s[1],s[2]))
    [] f = "sqrt" -> IncImg("sqrt",<<RMax(Zero,s[1][1]),s[1][2]>>)
    [] f = "exp" -> IncImg("exp",s[1])
    [] f = "log" -> LET r == IncImg("log",<<IF RLe(s[1][1],Zero) THEN One ELSE s[1][1],s[1][2]>>)
                    IN IF RLe(s[1][1],Zero) THEN << <<NInf,r[1][2]>>,<<NInf,r[2][2]>> >> ELSE r
    [] f = "atan" -> IncImg("atan",s[1])
    [] f = "asin" -> IncImg("asin",s[1])
    [] f = "acos" -> DecImg("acos",s[1])
    [] f = "tan" -> IncImg("tan",s[1])          \* between two poles
    [] f = "cos" -> CosImg(s[1])
    [] f = "sin" -> SinImg(s[1])

\* Is the result set r sound for the image g?  (never FALSE for a sound result)
Sound(g,r) == ~RIsNan(r[1]) /\ ~RIsNan(r[2]) /\ RLe(r[1],g[1][1]) /\ RLe(g[1][2],r[2])
\* Is r no wider than the image by more than tol on each side?
Tight(g,r,tol) == RLe(RSub(g[2][1],tol),r[1]) /\ RLe(r[2],RAdd(g[2][2],tol))

(* ---------- comparisons --------------------------------------------------------------------------- *)
\* "T" definitely true, "F" definitely false, anything else undecided
Always(op,x,y) ==   \* op holds for all choices
  CASE op = "lt" -> RLt(x[2],y[1])  [] op = "gt" -> RLt(y[2],x[1])
    [] op = "le" -> RLe(x[2],y[1])  [] op = "ge" -> RLe(y[2],x[1])
    [] op = "eq" -> REq(x[1],x[2]) /\ REq(y[1],y[2]) /\ REq(x[1],y[1])
    [] op = "ne" -> RLt(x[2],y[1]) \/ RLt(y[2],x[1])
Negate(op) == CASE op = "lt" -> "ge" [] op = "gt" -> "le" [] op = "le" -> "gt" [] op = "ge" -> "lt" [] op = "eq" -> "ne" [] op = "ne" -> "eq"
Never(op,x,y) == Always(Negate(op),x,y)
CmpSound(op,x,y,r) == (r = "T" => Always(op,x,y)) /\ (r = "F" => Never(op,x,y))
\* two-sided information that separates the arguments must lead to a decision
CmpDecided(op,x,y,r) == ((op # "eq" /\ op # "ne" /\ (RLt(x[2],y[1]) \/ RLt(y[2],x[1]))) => r \in {"T","F"})
===============================================================================
