----------------------------- MODULE ExactTrace -----------------------------
EXTENDS Exact, TraceBase
VARIABLE l
E == Trace[l]
Same(x,y) == IF x = Lost \/ y = Lost THEN TRUE ELSE R(x) = R(y)
SameAll(s) == \A i \in 1..Len(s) : Same(reg'[i],s[i])
IsNanR(x) == RIsNan(x)
\* the six operators, when neither argument is a nan
OkCmp(x,y,c,o) == IF IsNanR(x) \/ IsNanR(y) THEN o[1] = FALSE /\ o[2] = TRUE
                  ELSE LET k == RCmp(x,y) IN (c = 9 \/ c = k) /\ o = <<k = 0, k # 0, k = -1, k = 1, k # 1, k # -1>>
OkInt(f,v,r) == CASE f = "floor" -> r = RFloor(v) [] f = "ceil" -> r = RCeil(v) [] f = "num" -> r = RNum(v) [] f = "den" -> r = RDen(v)
                  [] f = "round" -> RLe(RAbs(RSub(v,r)),"1/2") /\ REq(RFloor(r),r)
BRel(f,x,y) == \* 1 true, -1 false, 0 not decided, for all reals in the intervals
   CASE f = "lt" -> IF RLt(x[2],y[1]) THEN 1 ELSE IF RLe(y[2],x[1]) THEN -1 ELSE 0
     [] f = "gt" -> IF RLt(y[2],x[1]) THEN 1 ELSE IF RLe(x[2],y[1]) THEN -1 ELSE 0
     [] f = "le" -> IF RLe(x[2],y[1]) THEN 1 ELSE IF RLt(y[2],x[1]) THEN -1 ELSE 0
     [] f = "ge" -> IF RLe(y[2],x[1]) THEN 1 ELSE IF RLt(x[2],y[1]) THEN -1 ELSE 0
     [] f = "eq" -> IF RLt(x[2],y[1]) \/ RLt(y[2],x[1]) THEN -1 ELSE IF REq(x[1],y[2]) /\ REq(x[2],y[1]) THEN 1 ELSE 0
     [] f = "ne" -> IF RLt(x[2],y[1]) \/ RLt(y[2],x[1]) THEN 1 ELSE IF REq(x[1],y[2]) /\ REq(x[2],y[1]) THEN -1 ELSE 0
     [] f = "refines" -> IF RLe(y[1],x[1]) /\ RLe(x[2],y[2]) THEN 1 ELSE -1
     [] f = "inconsistent" -> IF RLt(x[2],y[1]) \/ RLt(y[2],x[1]) THEN 1 ELSE -1
I2(a) == <<R(a[1]),R(a[2])>>
\* a ball operation is only required to enclose
OkBnd(e) == LET im == IF Len(e.a) = 1 THEN Img1(e.f,I2(e.a[1]),e.n) ELSE Img2(e.f,I2(e.a[1]),I2(e.a[2]))
            IN IF e.cls = "ball" THEN RLe(e.r[1],im[1]) /\ RLe(im[2],e.r[2]) ELSE I2(e.r) = im
Text(f,t) == IF f = "q" THEN R(t) ELSE RDecimal(t)
OkText(f,v,t,back) == R(v) = Text(f,t) /\ back # "exc" /\ R(back) = R(v)
Cap(t) == CASE t = 1 -> "65535" [] t \in {0,2} -> "4294967295" [] t = 3 -> "18446744073709551615"
OkComb(e) == LET v == IF e.f = "fac" THEN Fac(e.n) ELSE Bin(e.n,e.k)
             IN IF e.r = "exc" THEN e.f = "fac" => RLt(Cap(e.t),v)      \* only a result that does not fit may be refused
                ELSE R(e.r) = v
Query(e) == CASE e.ev = "cmp" -> OkCmp(reg[e.s[1]], IF e.lit # "" THEN R(e.lit) ELSE reg[e.s[2]], e.r, e.o)
              [] e.ev = "sgn" -> LET v == reg[e.s] IN e.fin = <<RIsNan(v), ~RIsFin(v) /\ ~RIsNan(v), RIsFin(v), RIsFin(v) /\ RSgn(v) = 0>> /\ (RIsNan(v) \/ e.r = RSgn(v))
              [] e.ev = "int" -> OkInt(e.f,reg[e.s],R(e.r))
              [] e.ev = "parts" -> REq(RMul(e.m,RTwoExp(-e.e)),reg[e.s])
              [] e.ev = "get" -> LET v == reg[e.s] IN IF RLe(e.lo,v) /\ RLe(v,e.hi) THEN e.r # "exc" /\ R(e.r) = v ELSE e.r = "exc"
              [] e.ev = "log2" -> RLe(RTwoExp(e.r),reg[e.s]) /\ RLt(reg[e.s],RTwoExp(e.r+1))
              [] e.ev = "text" -> OkText(IF e.f = "q" THEN "q" ELSE "d",reg[e.s],e.t,e.back)
              [] e.ev = "frac" -> REq(R(e.a),RMul(e.m,RTwoExp(RToInt(e.e))))
              [] e.ev = "sci" -> REq(R(e.a),RMul(RDecimal(e.m),RTwoExp(RToInt(e.e))))
              [] e.ev = "refuse" -> e.r = "exc"
              [] e.ev = "comb" -> OkComb(e)
              [] e.ev = "bnd" -> OkBnd(e)
              [] e.ev = "fail" -> FALSE
              [] e.ev = "brel" -> e.r = BRel(e.f,I2(e.a[1]),I2(e.a[2]))
\* an assignment: the registers become what the specification says; afterwards follow the code
Refused(e) == Value(e.f,[i \in 1..Len(e.s) |-> reg[e.s[i]]],e.n,e.lit) = "refused"
OkAsg(e) == LET want == IF e.f = "move" THEN [reg EXCEPT ![e.d] = reg[e.s[1]], ![e.s[1]] = Lost]
                        ELSE IF Refused(e) THEN reg
                        ELSE [reg EXCEPT ![e.d] = Value(e.f,[i \in 1..Len(e.s) |-> reg[e.s[i]]],e.n,e.lit)]
            IN /\ (e.r = "exc") = (e.f # "move" /\ Refused(e))
               /\ \A i \in 1..Len(e.all) : Same(want[i],e.all[i])
Norm(s) == [i \in 1..Len(s) |-> IF s[i] = Lost THEN Lost ELSE R(s[i])]
Init == l = 1 /\ reg = <<>>
Next == /\ l <= TraceLen
        /\ IF E.ev \in {"asg","start"} THEN Judge(l,IF E.ev = "start" THEN \A i \in 1..Len(E.all) : R(E.all[i]) = "0" ELSE OkAsg(E),E.ev \o " " \o E.f) /\ reg' = Norm(E.all)
           ELSE Judge(l,Query(E),E.ev \o " " \o E.f) /\ UNCHANGED reg
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_<<l,reg>>
===============================================================================
