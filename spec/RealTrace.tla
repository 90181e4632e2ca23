------------------------------- MODULE RealTrace -------------------------------
(* Recorded questions to effective real numbers (terms over constants of all       *)
(* classes, limits and case selections).  Every answer has to be true of the exact *)
(* value of the term, and as good as asked for.                                    *)
EXTENDS Term, TraceBase
VARIABLE l
E == Trace[l]
\* bits of the arithmetic that a question is answered with
Bits(q) == CASE q[1] \in {"get-mp","bounds-mp"} -> q[2] [] q[1] = "eff" -> IF q[2] < 4 THEN 53 ELSE 16*q[2] [] q[1] = "eff-mp" -> 20 [] OTHER -> 53
\* the answer q = <<kind,n,object>> to a question about the real number v
OkQ(v,q,w) ==
  LET s == Set(q[3]) mg == RMax(One,IMag(v)) IN
  CASE q[1] = "acc" -> True(v,s) /\ RLe(Width(s),RTwoExp(1-q[2]))               \* half the width is the error
    [] q[1] = "mag" -> RLe(IMag(v),RAdd(s[2],RTwoExp(-150))) 
    [] q[1] = "approx" -> (w \/ Near(v,R(q[3][2]),RMul(mg,"1/1000")))
    [] q[1] \in {"vr","vr-dp","vr-mp"} -> True(v,s) /\ RLe(Width(s),RTwoExp(1-q[2]))
    [] q[1] \in {"lower","upper"} -> True(v,s) /\ (~w => RLe(RAbs(RSub(R(q[3][2]),v[1])),RMul(mg,"1/1000")))
    [] OTHER -> True(v,s) /\ RIsFin(s[1]) /\ RIsFin(s[2]) /\ (~w => RLe(Width(s),RMul(mg,RTwoExp(30-Bits(q)))))
\* w: the term contains limits, which little effort approximates only roughly
\* comparisons that must be decided: effort 9 means 144 bits, or 2^-9 for limits
Apart(x,y,e) == LET g == RTwoExp(-60) IN e >= 9 /\ (RLt(RAdd(x[2],g),y[1]) \/ RLt(RAdd(y[2],g),x[1]))
OkC(x,y,c,w) ==
  LET r == c[3] lt == RLt(x[2],y[1]) gt == RLt(y[2],x[1]) IN
  /\ CASE c[1] \in {"lt","le"} -> (r = "T" => ~gt) /\ (r = "F" => ~lt)
       [] c[1] \in {"gt","ge"} -> (r = "T" => ~lt) /\ (r = "F" => ~gt)
       [] c[1] = "eq" -> r # "T"
       [] c[1] = "ne" -> r # "F"
  /\ (c[1] \in {"eq","ne"} /\ x[1] = x[2] /\ x = y) => r = "I"
  /\ (Apart(x,y,c[2]) /\ ~w) => r \in {"T","F"}
Ok(e) ==
  CASE e.ev = "real" -> LET v == Val(e.p,<<>>) IN \A i \in 1..Len(e.q) : OkQ(v,e.q[i],e.w)
    [] e.ev = "ask" -> LET v == Vals(e.p,<<>>) IN \A i \in 1..Len(e.c) : OkC(v[e.a],v[e.b],e.c[i],e.w)
    [] e.ev = "nd" -> LET v == Val(e.p,<<>>) IN /\ (e.r => RLt(R(e.l),v[2])) /\ (~e.r => RLt(v[1],R(e.h)))
                                                /\ RLt(RSub(v[1],R(e.z)),One) /\ RLt(RSub(R(e.z),v[2]),One)
    [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= TraceLen
        /\ Judge(l,Ok(E),E.ev)
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_l
===============================================================================
