------------------------------- MODULE FloatRaw -------------------------------
(* The raw floating-point machine under everything else: numbers m*2^e with a     *)
(* p-bit mantissa, operations rounded in a direction chosen per call, and one     *)
(* piece of global state, the processor's rounding mode, which a call with an      *)
(* explicit rounding direction must leave as it found it.                          *)
EXTENDS Enclosure
VARIABLE mode            \* the processor's rounding mode
Modes == {"near","down","up","zero"}

\* smallest exponent of a mantissa unit, and the greatest finite number, per format
EMin(t) == IF t = "dp" THEN -1074 ELSE -1000000000
DpHuge == RSub(RTwoExp(1024),RTwoExp(970))
Max(t,p) == IF t = "dp" THEN DpHuge ELSE PInf
DpMaxFin == RSub(RTwoExp(1024),RTwoExp(971))
MaxFin(t,p) == DpMaxFin
Dn(t,p,v) == IF t # "dp" THEN RRoundDn(v,p,EMin(t))
             ELSE IF RLt(MaxFin(t,p),v) THEN MaxFin(t,p) ELSE IF RLt(v,RNeg(MaxFin(t,p))) THEN NInf ELSE RRoundDn(v,p,EMin(t))
Up(t,p,v) == RNeg(Dn(t,p,RNeg(v)))
Nearest(t,p,v,r) == LET d == Dn(t,p,v) u == Up(t,p,v)
                    IN IF ~RIsFin(d) \/ ~RIsFin(u) THEN r = d \/ r = u
                       ELSE (r = d /\ RLe(RSub(v,d),RSub(u,v))) \/ (r = u /\ RLe(RSub(u,v),RSub(v,d)))
\* spacing of the format around v, an upper bound: 2^(1-p)*|v|, at least the smallest unit
DpTiny == RTwoExp(-1074)
Ulp(t,p,v) == RMax(RMul(RTwoExp(1-p),RAbs(v)),IF t = "dp" THEN DpTiny ELSE Zero)

Rational(f) == f \in {"add","sub","mul","div","fma","sqr","rec","neg","pos","hlf","abs","min","max","shft","conv","nul"}
ExactValue(f,a,n) == IF f = "conv" THEN a[1] ELSE Img(f,[i \in 1..Len(a) |-> <<a[i],a[i]>>],n)[1][1]
Bracket(f,a,n) == IF f = "pi" THEN <<PiLo,PiHi>> ELSE LET g == Img(f,[i \in 1..Len(a) |-> <<a[i],a[i]>>],n) IN <<RMin(g[2][1],g[1][1]),RMax(g[2][2],g[1][2])>>

\* r is a permitted result of operation f, rounded in direction rnd, of the numbers a
CorrectlyRounded(t,p,f,rnd,a,n,r) ==
   LET v == ExactValue(f,a,n) IN
   CASE rnd = "down" -> r = Dn(t,p,v) [] rnd = "up" -> r = Up(t,p,v) [] rnd = "near" -> Nearest(t,p,v,r)
\* the elementary functions and powers: a bound in the requested direction, at most slack units away
Bounding(t,p,f,rnd,a,n,r,slack) ==
   LET b == Bracket(f,a,n)
       lo == IF t = "dp" THEN RMin(b[1],DpMaxFin) ELSE b[1]          \* beyond the greatest number only that number is left
       hi == IF t = "dp" THEN RMax(b[2],RNeg(DpMaxFin)) ELSE b[2]
       tol == RMul(slack,RMax(Ulp(t,p,b[1]),Ulp(t,p,b[2])))
   IN /\ ~RIsNan(r)
      /\ rnd = "down" => RLe(r,b[2]) /\ (RIsFin(r) => RLe(RSub(lo,tol),r))
      /\ rnd = "up"   => RLe(b[1],r) /\ (RIsFin(r) => RLe(r,RAdd(hi,tol)))
      /\ rnd = "near" /\ RIsFin(r) => RLe(RSub(lo,tol),r) /\ RLe(r,RAdd(hi,tol))
      /\ (rnd = "up" /\ r = PInf) => RLe(Max(t,p),RAdd(b[2],tol))
      /\ (rnd = "down" /\ r = NInf) => RLe(RSub(b[1],tol),RNeg(Max(t,p)))
\* log suffers cancellation next to 1, so its tolerance is absolute there
Slack(f,n) == IF f = "pow" THEN RInt(4 + 4*(IF n < 0 THEN -n ELSE n)) ELSE RInt(16)
\* midpoint and radius: the sum is rounded first and then halved
OkMed(t,p,rnd,v,r) == /\ rnd = "down" => RLe(r,v) /\ (RIsFin(r) => RLe(RSub(v,RMul("4",Ulp(t,p,v))),r))
                      /\ rnd = "up" => RLe(v,r) /\ (RIsFin(r) => RLe(r,RAdd(v,RMul("4",Ulp(t,p,v)))))
                      /\ (rnd = "near" /\ RIsFin(r)) => RLe(RAbs(RSub(r,v)),RMul("4",Ulp(t,p,v)))
Permitted(t,p,f,rnd,a,n,r) ==
   IF f = "med" THEN OkMed(t,p,rnd,RDiv(RAdd(a[1],a[2]),"2"),r)
   ELSE IF f = "rad" THEN OkMed(t,p,rnd,RDiv(RSub(a[2],a[1]),"2"),r) ELSE
   IF Rational(f) THEN CorrectlyRounded(t,p,f,rnd,a,n,r) ELSE Bounding(t,p,f,rnd,a,n,r,Slack(f,n))

\* the action: a rounded operation returns a permitted result and does not disturb the mode
Op(t,p,f,rnd,a,n,r) == Permitted(t,p,f,rnd,a,n,r) /\ UNCHANGED mode
SetMode(m) == mode' = m
===============================================================================
