------------------------------ MODULE NumTrace ------------------------------
(* Recorded operations on Ariadne's validated and approximate numbers.  Every     *)
(* event applies one operation of one combination of number classes; it is a step *)
(* of the specification if the result carries only true information about the     *)
(* real result for every choice of reals compatible with the arguments, and is    *)
(* as sharp as the rounding of its format allows.                                 *)
EXTENDS Enclosure, TraceBase
VARIABLE l
E == Trace[l]
Tiny(e) == IF e.t = "dp" \/ e.r[1] = "c" THEN RTwoExp(-1070) ELSE Zero
Elementary == {"sqrt","exp","log","sin","cos","tan","atan","asin","acos"}
Huge == RTwoExp(1021)
FinI(i) == RIsFin(i[1]) /\ RIsFin(i[2])
\* for an approximate result the arguments are read as the numbers they display
Pt(x) == IF x[1] \in {"a","l","u","p","q"} THEN <<R(x[2]),R(x[2])>> ELSE Set(x)
ArgSets(e) == IF e.r[1] = "a" THEN [i \in 1..Len(e.a) |-> Pt(e.a[i])] ELSE [i \in 1..Len(e.a) |-> Set(e.a[i])]
MaxMag(ss) == IF Len(ss) = 1 THEN IMag(ss[1]) ELSE RMax(IMag(ss[1]),IMag(ss[2]))
SumWid(ss) == IF Len(ss) = 1 THEN Width(ss[1]) ELSE RAdd(Width(ss[1]),Width(ss[2]))
\* extra operations on information itself
Image(f,s,n) == CASE f \in {"valerr","loose"} -> Exact(s[1])
                  [] f = "pm" -> Exact(<<RSub(s[1][1],s[2][2]),RAdd(s[1][2],s[2][2])>>)
                  [] f = "plusminus" -> Exact(<<RNeg(s[1][2]),s[1][2]>>)
                  [] OTHER -> Img(f,s,n)
\* permitted excess of a finite end of the image
Slack(e,g,s,end) ==
  LET ulp == RTwoExp(e.u - e.p)
      rel == RMul(RAbs(end),ulp)
      abs == CASE e.f \in {"sin","cos"} -> RMul(ulp,RMax(One,MaxMag(s)))
               [] e.f = "tan" -> RMul(RMul(ulp,"32"),RMax(One,MaxMag(s)))
               [] e.f \in {"add","sub"} /\ e.u >= 3 -> RMul(ulp,MaxMag(s))      \* an operand was converted to the format first
               [] e.f = "fma" -> RMul(ulp,RAdd(IMag(IMul(s[1],s[2])),IMag(s[3])))
               [] OTHER -> Zero
      ball == IF e.r[1] # "c" THEN Zero
              ELSE IF e.f \in Elementary THEN RMul(RTwoExp(e.u+6-e.p),RMul(RMax(One,IMag(g[2])),RMax(One,MaxMag(s))))
              ELSE RAdd(RMul(RMul("4",RTwoExp(e.u-e.p)),RMax(IMag(g[2]),IF e.f \in {"add","sub","max","min","pos","neg","meet","hull","valerr"} THEN MaxMag(s) ELSE Zero)),
                        IF e.f \in {"valerr","pos","pm","neg","hlf"} THEN Zero
                        ELSE RMul("4",RAdd(Width(g[2]),IF e.f \in {"max","min"} THEN SumWid(s) ELSE Zero)))
  IN RAdd(RAdd(rel,abs),RAdd(ball,Tiny(e)))
\* the ends of the result that carry information must be sharp
Sharp(e,g,s,r) ==
  LET lowkind == e.r[1] \in {"e","b","c","l","q"}
      upkind == e.r[1] \in {"e","b","c","u","p"}
  IN /\ (lowkind /\ RIsFin(g[2][1]) /\ RLe(RAbs(g[2][1]),Huge)) => RLe(RSub(g[2][1],Slack(e,g,s,g[2][1])),r[1])
     /\ (upkind /\ RIsFin(g[2][2]) /\ RLe(RAbs(g[2][2]),Huge)) => RLe(r[2],RAdd(g[2][2],Slack(e,g,s,g[2][2])))
NoSharp(e,s,g) == \/ e.f = "loose"
                  \/ e.u >= 3 /\ e.t = "dp" /\ (\E i \in 1..Len(s) : RLt(IMag(s[i]),RTwoExp(-1000)))   \* an operand underflows when converted
                  \/ e.f \in {"rec","div"} /\ HasZero(s[Len(s)])                     \* all information may be lost
                  \/ e.f = "pow" /\ e.n < 0 /\ HasZero(s[1])
                  \/ e.r[1] = "c" /\ (e.p < 12 \/ ~FinI(g[2]) \/ RLt(RTwoExp(1000),IMag(g[2])) \/ RLt(RTwoExp(1000),MaxMag(s)))
                  \/ e.r[1] = "c" /\ e.f = "div" /\ (RLt(RAbs(Mid(s[2])),Width(s[2])) \/ RLt(RTwoExp(1000),IMag(IRec(s[2]))))
                  \/ ~(\A i \in 1..Len(s) : FinI(s[i])) /\ e.f \in {"mul","div","fma","sqr","pow","sin","cos"}
ApproxOk(e,g,s) == LET v == R(e.r[2]) IN
  IF ~RIsFin(v) \/ ~FinI(g[2]) THEN (~RIsFin(v)) => (~FinI(g[2]) \/ (e.t = "dp" /\ (RLt(Huge,IMag(g[2])) \/ RLt(Huge,MaxMag(s)))))
  ELSE /\ RLe(RSub(g[2][1],RMul("2",Slack(e,g,s,g[2][1]))),v) /\ RLe(v,RAdd(g[2][2],RMul("2",Slack(e,g,s,g[2][2]))))
OkRound(s,r) == \A i \in 1..2 : ~RIsFin(s[i]) \/ (RLe(RAbs(RSub(s[i],r[i])),"1/2") /\ REq(RFloor(r[i]),r[i]))
\* an operation may be refused where it is not defined, or where an exact number has no exact representation
Representable(v,p,t) == REq(RRoundDn(v,p,IF t = "dp" THEN -1074 ELSE -100000),v) /\ (t = "mp" \/ RLt(RAbs(v),RTwoExp(1024)))
Refusable(e,s) == \/ e.f \in {"rec","div"} /\ HasZero(s[Len(s)])
                  \/ e.f = "pow" /\ e.n < 0 /\ HasZero(s[1])
                  \/ (\A i \in 1..Len(s) : e.a[i][1] = "e") /\ (\E i \in 1..Len(s) : ~Representable(s[i][1],e.p,e.t))
\* outside the domain of the function nothing is claimed (an infinite bound times zero is nan: no information)
OutOfDomain(e,s) ==
  \/ e.f = "hlf" /\ e.a[1][1] = "e" /\ ~Representable(RDiv(s[1][1],"2"),e.p,e.t)   \* half the least double is not a double
  \/ e.f \in {"mul","fma"} /\ (~FinI(s[1]) \/ ~FinI(s[2])) /\ (\E i \in 1..2 : \E j \in 1..2 : REq(s[i][j],Zero))
  \/ e.f \in {"sqrt","log"} /\ RLt(s[1][1],Zero)
  \/ e.f \in {"rec","div"} /\ HasZero(s[Len(s)]) /\ (\E i \in 1..Len(s) : e.a[i][1] \in {"p","q","l","u","a"})
  \/ e.f = "div" /\ REq(s[2][1],Zero) /\ REq(s[2][2],Zero)
OkOp(e) ==
  LET s == ArgSets(e) IN
  IF OutOfDomain(e,s) THEN TRUE ELSE
  IF e.r[1] = "exc" THEN Refusable(e,s)
  ELSE IF e.f = "round" THEN OkRound(s[1],Set(e.r))
  ELSE LET g == Image(e.f,s,e.n) IN
       IF e.r[1] = "a" THEN ApproxOk(e,g,s)
       ELSE LET r == Set(e.r) IN Sound(g,r) /\ RLe(r[1],r[2]) /\ (e.r[1] = "c" /\ RIsFin(e.r[3]) => RLe(Zero,R(e.r[3]))) /\ (NoSharp(e,s,g) \/ Sharp(e,g,s,r))
\* comparisons: sound, and decided when the arguments are separated (by more than gap roundings)
OkCmp(e) ==
  LET x == Set(e.a[1])  y == Set(e.a[2])
      tol == IF e.gap = 0 THEN Zero ELSE RMul(RTwoExp(3-e.p),RMax(IF FinI(x) THEN IMag(x) ELSE One,IF FinI(y) THEN IMag(y) ELSE One))
      \* (a comparison need not use the sign that a positive bound carries)
      one == {e.a[1][1],e.a[2][1]} \cap {"p","q"} # {}
      apart == RLt(RAdd(x[2],tol),y[1]) \/ RLt(RAdd(y[2],tol),x[1])
  IN IF e.r = "exc" THEN FALSE
     ELSE IF e.r = "A" THEN TRUE
     ELSE CmpSound(e.f,x,y,e.r) /\ (apart /\ ~one => e.r \in {"T","F"})
\* the order of information: sets, inclusion, overlap
OkRel(e) ==
  LET x == Set(e.a[1])  y == Set(e.a[2])
      exact == e.a[1][1] # "c"
      res == CASE e.f = "refines" -> Subset(x,y) [] e.f = "models" -> Subset(y,x)
               [] e.f = "consistent" -> RLe(x[1],y[2]) /\ RLe(y[1],x[2])
               [] e.f = "inconsistent" -> RLt(x[2],y[1]) \/ RLt(y[2],x[1])
               [] e.f = "same" -> IF e.a[1][1] = e.a[2][1] THEN x = y ELSE x = y
  IN IF exact THEN e.r = res ELSE e.r => res      \* ball relations may be refused because of rounding, never granted wrongly
OkText(e) ==
  LET x == Set(e.a[1])
      tol(v) == IF e.p < 12 THEN PInf ELSE RAdd(IF e.f = "bounds" THEN RMul("10",Width(x)) ELSE Zero,RMul(RMax(RAbs(v),IF e.f = "bounds" THEN IMag(x) ELSE Zero),IF e.f = "error" THEN "1/50" ELSE "1/100000"))
  IN /\ e.l # "" => LET v == RDecimal(e.l) IN RLe(v,x[1]) /\ RLe(RSub(x[1],v),tol(x[1]))
     /\ e.u # "" => LET v == RDecimal(e.u) IN RLe(x[2],v) /\ RLe(RSub(v,x[2]),tol(x[2]))
Ok(e) == CASE e.ev = "op" -> OkOp(e) [] e.ev = "cmp" -> OkCmp(e) [] e.ev = "rel" -> OkRel(e) [] e.ev = "text" -> OkText(e)
Init == l = 1
Next == /\ l <= TraceLen
        /\ Judge(l,Ok(E),E.ev \o " " \o E.f)
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_l
===============================================================================
