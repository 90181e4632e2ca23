------------------------------ MODULE IntervalMC ------------------------------
(* Interval (bounds) arithmetic on a toy floating-point format, explored          *)
(* exhaustively.  The state is a pair of argument intervals, the operation and    *)
(* its result computed by the sign-case algorithms of float_bounds.hpp with        *)
(* directed rounding; the invariants are the guarantees of property C02: the       *)
(* result contains every exact result, and widening by one rounding is the only    *)
(* loss.  The one-sided and ball kinds of C03 are derived from the same state.     *)
EXTENDS Enclosure, FiniteSets
CONSTANT P
EMin == -1
EMax == 1
VARIABLES x, y, op, r
vars == <<x,y,op,r>>
Mant == (1-2^P)..(2^P-1)
F == {RMul(RInt(m),RTwoExp(e)) : m \in Mant, e \in EMin..EMax}
I == {<<a,b>> \in F \X F : RLe(a,b)}
Dn(v) == IF RIsFin(v) THEN RRoundDn(v,P,EMin-2*P) ELSE v
Up(v) == IF RIsFin(v) THEN RRoundUp(v,P,EMin-2*P) ELSE v
Pos(v) == RLe(Zero,v)
Neg(v) == RLe(v,Zero)
\* the nine-case multiplication of the code
Mul(a,b) ==
  IF Pos(a[1]) THEN
    IF Pos(b[1]) THEN <<Dn(RMul(a[1],b[1])),Up(RMul(a[2],b[2]))>>
    ELSE IF Neg(b[2]) THEN <<Dn(RMul(a[2],b[1])),Up(RMul(a[1],b[2]))>>
    ELSE <<Dn(RMul(a[2],b[1])),Up(RMul(a[2],b[2]))>>
  ELSE IF Neg(a[2]) THEN
    IF Pos(b[1]) THEN <<Dn(RMul(a[1],b[2])),Up(RMul(a[2],b[1]))>>
    ELSE IF Neg(b[2]) THEN <<Dn(RMul(a[2],b[2])),Up(RMul(a[1],b[1]))>>
    ELSE <<Dn(RMul(a[1],b[2])),Up(RMul(a[1],b[1]))>>
  ELSE IF Pos(b[1]) THEN <<Dn(RMul(a[1],b[2])),Up(RMul(a[2],b[2]))>>
  ELSE IF Neg(b[2]) THEN <<Dn(RMul(a[2],b[1])),Up(RMul(a[1],b[1]))>>
  ELSE <<RMin(Dn(RMul(a[1],b[2])),Dn(RMul(a[2],b[1]))),RMax(Up(RMul(a[1],b[1])),Up(RMul(a[2],b[2])))>>
Rec(a) == IF RLt(Zero,a[1]) \/ RLt(a[2],Zero) THEN <<Dn(RDiv(One,a[2])),Up(RDiv(One,a[1]))>> ELSE <<NInf,PInf>>
Div(a,b) == IF HasZero(b) THEN <<NInf,PInf>>
  ELSE IF RLt(Zero,b[1]) THEN
    IF Pos(a[1]) THEN <<Dn(RDiv(a[1],b[2])),Up(RDiv(a[2],b[1]))>>
    ELSE IF Neg(a[2]) THEN <<Dn(RDiv(a[1],b[1])),Up(RDiv(a[2],b[2]))>>
    ELSE <<Dn(RDiv(a[1],b[1])),Up(RDiv(a[2],b[1]))>>
  ELSE IF Pos(a[1]) THEN <<Dn(RDiv(a[2],b[2])),Up(RDiv(a[1],b[1]))>>
    ELSE IF Neg(a[2]) THEN <<Dn(RDiv(a[2],b[1])),Up(RDiv(a[1],b[2]))>>
    ELSE <<Dn(RDiv(a[2],b[2])),Up(RDiv(a[1],b[2]))>>
Sqr(a) == IF Pos(a[1]) THEN <<Dn(RMul(a[1],a[1])),Up(RMul(a[2],a[2]))>>
          ELSE IF Neg(a[2]) THEN <<Dn(RMul(a[2],a[2])),Up(RMul(a[1],a[1]))>>
          ELSE <<Zero,RMax(Up(RMul(a[1],a[1])),Up(RMul(a[2],a[2])))>>
Apply(f,a,b) ==
  CASE f = "add" -> <<Dn(RAdd(a[1],b[1])),Up(RAdd(a[2],b[2]))>>
    [] f = "sub" -> <<Dn(RSub(a[1],b[2])),Up(RSub(a[2],b[1]))>>
    [] f = "mul" -> Mul(a,b)
    [] f = "div" -> Div(a,b)
    [] f = "rec" -> Rec(a)
    [] f = "sqr" -> Sqr(a)
    [] f = "abs" -> IAbs(a)
    [] f = "max" -> <<RMax(a[1],b[1]),RMax(a[2],b[2])>>
    [] f = "min" -> <<RMin(a[1],b[1]),RMin(a[2],b[2])>>
    [] f = "meet" -> <<RMax(a[1],b[1]),RMin(a[2],b[2])>>
Ops == {"add","sub","mul","div","max","min","meet"}
UOps == {"rec","sqr","abs"}
Args(f,a,b) == IF f \in UOps THEN <<a>> ELSE <<a,b>>
Init == \E a \in I, b \in I : x = a /\ y = b /\ op = "add" /\ r = Apply("add",a,b)
Next == \/ \E f \in Ops : op' = f /\ r' = Apply(f,x,y) /\ UNCHANGED <<x,y>>
        \/ y = <<Zero,Zero>> /\ (\E f \in UOps : op' = f /\ r' = Apply(f,x,y) /\ UNCHANGED <<x,y>>)
Spec == Init /\ [][Next]_vars
Image == Img(op,Args(op,x,y),0)
NoDomain == (op = "div" /\ y = <<Zero,Zero>>) \/ (op = "rec" /\ x = <<Zero,Zero>>)
Contains == NoDomain \/ (op = "meet" /\ RLt(r[2],r[1])) \/ Sound(Image,r)
Ordered == op = "meet" \/ RLe(r[1],r[2])
SharpInv == (op \in {"div","rec"} /\ HasZero(IF op = "rec" THEN x ELSE y))
            \/ LET g == Image[1] IN r[1] = Dn(g[1]) /\ r[2] = Up(g[2])
\* the image really is the image: every combination of representable points lies in it
Witness == op \in {"meet","div","rec"} \/
  \A a \in {x[1],x[2],Mid(x)}, b \in {y[1],y[2],Mid(y)} :
     In(CASE op = "add" -> RAdd(a,b) [] op = "sub" -> RSub(a,b) [] op = "mul" -> RMul(a,b) [] op = "sqr" -> RMul(a,a)
          [] op = "abs" -> RAbs(a) [] op = "max" -> RMax(a,b) [] op = "min" -> RMin(a,b),r)
\* order isotonicity is implied by exactness of the image; comparisons of the states never lie
CmpInv == \A o \in {"lt","le","gt","ge","eq","ne"} : ~(Always(o,x,y) /\ Never(o,x,y))
===============================================================================
