------------------------------- MODULE IvlTrace -------------------------------
(* Judges recorded answers about intervals, boxes and unions of intervals.  An upper  *)
(* (lower, approximate) interval stands for every interval it contains (that contains  *)
(* it, any): a definite answer must be right for all of them, and what is right for    *)
(* all of them must be answered where the result can say so.                           *)
EXTENDS Box, TraceBase, FiniteSetsExt
VARIABLE l
E == Trace[l]
Iv(c) == <<R(c[1]),R(c[2])>>
Bx(b) == TLCEval([k \in 1..Len(b) |-> Iv(b[k])])
Big == RTwoExp(5000)
LowEnds(k,i) == CASE k = "u" -> {i[1],Big} [] k = "l" -> {i[1],RNeg(Big)} [] k = "a" -> {RNeg(Big),Big} [] OTHER -> {i[1]}
UppEnds(k,i) == CASE k = "u" -> {i[2],RNeg(Big)} [] k = "l" -> {i[2],Big} [] k = "a" -> {RNeg(Big),Big} [] OTHER -> {i[2]}
\* the extreme choices, the same in every component
Picks(k,b) == IF k = "b" THEN {[j \in 1..Len(b) |-> Pt1(b[j][1])],[j \in 1..Len(b) |-> Pt1(b[j][2])]}
   ELSE LET Pk(j,x,y) == <<IF x = 0 THEN b[j][1] ELSE CASE k = "u" -> RMax(b[j][1],Big) [] k = "l" -> RMin(b[j][1],RNeg(Big)) [] OTHER -> b[j][1],
                          IF y = 0 THEN b[j][2] ELSE CASE k = "u" -> RMin(b[j][2],RNeg(Big)) [] k = "l" -> RMax(b[j][2],Big) [] OTHER -> b[j][2]>>
        IN {[j \in 1..Len(b) |-> Pk(j,x,y)] : x \in {0,1}, y \in {0,1}}
\* raw comparison of ends, as the answer is monotone in each end
Raw1(f,a,b) ==
  CASE f = "subset" -> RLe(b[1],a[1]) /\ RLe(a[2],b[2]) [] f \in {"superset","contains"} -> RLe(a[1],b[1]) /\ RLe(b[2],a[2])
    [] f = "intersect" -> RLe(a[1],b[2]) /\ RLe(b[1],a[2]) [] f \in {"disjoint","separated"} -> RLt(b[2],a[1]) \/ RLt(a[2],b[1])
    [] f = "overlap" -> RLt(a[1],b[2]) /\ RLt(b[1],a[2]) [] f = "inside" -> RLt(b[1],a[1]) /\ RLt(a[2],b[2]) [] f = "covers" -> RLt(a[1],b[1]) /\ RLt(b[2],a[2])
    [] OTHER -> Rel1(f,a,b)
RawRel(f,a,b) == IF f \in Some THEN \E k \in 1..Len(a) : Raw1(f,a[k],b[k]) ELSE \A k \in 1..Len(a) : Raw1(f,a[k],b[k])
Undirected == {"equal","eq","ne","singleton"}
Tame(b) == \A k \in 1..Len(b) : RIsFin(b[k][1]) /\ RIsFin(b[k][2])
OkPred(v) == LET a == Bx(v.a) b == Bx(v.b) IN
  IF v.k1 = "e" /\ v.k2 = "e" THEN v.r = (IF Rel(v.f,a,b) THEN "T" ELSE "F")
  ELSE IF v.k1 = "a" \/ v.k2 = "a" THEN ((v.r \in {"at","af"} /\ "b" \notin {v.k1,v.k2}) => v.r = (IF RawRel(v.f,a,b) THEN "at" ELSE "af")) /\ (v.r \in {"T","F"} => FALSE)
  ELSE LET CA == Picks(v.k1,a) CB == Picks(v.k2,b) IN
       /\ v.r = "T" => (v.f = "ne" /\ RawRel("disjoint",a,b)) \/ (v.f \in {"eq","equal"} /\ RawRel("equal",a,b) /\ RawRel("singleton",a,a)) \/ \A x \in CA : \A y \in CB : RawRel(v.f,x,y)
       /\ v.r = "F" => IF v.f \in Undirected \/ v.f = "bounded" THEN ~RawRel(v.f,a,b) ELSE \A x \in CA : \A y \in CB : ~RawRel(v.f,x,y)
       /\ (v.f \notin Undirected \cup {"bounded"} /\ Tame(a) /\ Tame(b) /\ \A x \in CA : \A y \in CB : RawRel(v.f,x,y)) => v.r \in {"T","at"}
SameB(r,g) == Len(r) = Len(g) /\ \A k \in 1..Len(r) : REq(Iv(r[k])[1],g[k][1]) /\ REq(Iv(r[k])[2],g[k][2])
OkSet(v) == SameB(v.r,IF v.f = "inter" THEN Inter(Bx(v.a),Bx(v.b)) ELSE Hull(Bx(v.a),Bx(v.b)))
RECURSIVE Cat(_,_)
Cat(bs,k) == IF k > Len(bs) THEN <<>> ELSE Bx(bs[k]) \o Cat(bs,k+1)
OkStr(v) == SameB(v.r,LET a == Bx(v.a[1]) IN
  CASE v.f = "prod" -> Cat(v.a,1)
    [] v.f = "proj" -> [i \in 1..Len(v.ix) |-> a[v.ix[i]+1]]
    [] v.f = "range" -> SubSeq(a,v.ix[1]+1,v.ix[2])
    [] v.f = "remove" -> SubSeq(a,1,v.ix[1]) \o SubSeq(a,v.ix[1]+2,Len(a)))
(* -------------------------------- derived quantities ------------------------------- *)
Eps == RTwoExp(-50)
Tiny == RTwoExp(-1072)
Mag(b) == FoldSet(LAMBDA k, s : RMax(s,IMag(b[k])),Zero,1..Len(b))
Value(f,b) == CASE f \in {"centre","midpoint"} -> Mid(b[1]) [] f = "width" -> WidthK(b,1) [] f = "bradius" -> RDiv(MaxW(b),"2") [] f = "semi" -> SumW(b,1) [] f = "measure" -> Prod("w",b,1)
TolOf(f,b) == IF f = "measure" THEN RAdd(RMul(RMul(RInt(2*Len(b)),Eps),FoldSet(LAMBDA k, s : RMul(s,RAdd(Tiny,RMul("2",IMag(b[k])))),One,1..Len(b))),Tiny)
              ELSE RAdd(RMul(RInt(4*Len(b)),RMul(Eps,Mag(b))),Tiny)
OkNum(v) == LET b == Bx(v.a) g == Value(v.f,b) r == Iv(v.r) tol == TolOf(v.f,b) over == RLt(RTwoExp(1020),RAdd(g,Mag(b))) IN
  /\ (v.k \in {"e","u"} /\ v.f \in {"width","semi","measure","bradius"}) => v.d \in {"e","u","b"}
  \* the radius is about the rounded midpoint, so may exceed half the width
  /\ v.d \in {"b"} => (v.f = "bradius" \/ RLe(r[1],g)) /\ RLe(g,r[2])
  /\ v.d = "u" => RLe(g,r[2])
  /\ (v.d = "l" /\ v.f # "bradius") => RLe(r[1],g)
  /\ (v.d = "e" /\ v.f \notin {"midpoint","bradius"}) => over \/ (REq(r[1],g) /\ REq(r[2],g))
  /\ over \/ (RLe(RAbs(RSub(r[1],g)),tol) /\ RLe(RAbs(RSub(r[2],g)),tol))
  /\ v.f = "midpoint" => RLe(b[1][1],r[1]) /\ RLe(r[2],b[1][2])
OkRad(v) == LET b == Bx(v.a) m == Iv(v.m) r == Iv(v.r) g == RMax(RSub(b[1][2],m[1]),RSub(m[2],b[1][1])) tol == TolOf("radius",b) IN
  /\ v.d \in {"u","b"} => RLe(g,r[2])
  /\ v.d = "e" => REq(g,r[2])
  /\ RLe(RAbs(RSub(r[2],g)),tol)
SplitOk(a,x,y) == REq(x[1],a[1]) /\ REq(y[2],a[2]) /\ REq(x[2],y[1]) /\ RLe(a[1],x[2]) /\ RLe(x[2],a[2]) /\ RLe(RAbs(RSub(x[2],Mid(a))),TolOf("radius",<<a>>))
OkSplit2(v) == SplitOk(Bx(v.a)[1],Bx(v.l)[1],Bx(v.u)[1])
OkSplit(v) == LET a == Bx(v.a)[1] m == Bx(v.m)[1] tol == RMul("4",TolOf("radius",<<a>>)) IN SplitOk(a,Bx(v.l)[1],Bx(v.u)[1]) /\ Subset(m,<<RSub(a[1],tol),RAdd(a[2],tol)>>)
   /\ RLe(RAbs(RSub(m[1],RDiv(RAdd(RMul("3",a[1]),a[2]),"4"))),tol) /\ RLe(RAbs(RSub(m[2],RDiv(RAdd(RMul("3",a[2]),a[1]),"4"))),tol)
OkBSplit(v) == LET a == Bx(v.a) x == Bx(v.l) y == Bx(v.u) Splits(j) == SplitOk(a[j],x[j],y[j]) /\ \A k \in 1..Len(a) : k = j \/ (REq(x[k][1],a[k][1]) /\ REq(x[k][2],a[k][2]) /\ REq(y[k][1],a[k][1]) /\ REq(y[k][2],a[k][2])) IN
  Len(x) = Len(a) /\ Len(y) = Len(a) /\ IF v.j >= 0 THEN Splits(v.j+1) ELSE \E j \in 1..Len(a) : Splits(j) /\ RLe(RSub(MaxW(a),RMul("8",TolOf("radius",a))),WidthK(a,j))
OkCorners(v) == LET a == Bx(v.a) IN \A k \in 1..Len(a) : REq(R(v.l[k]),a[k][1]) /\ REq(R(v.u[k]),a[k][2])
OkVertices(v) == LET a == Bx(v.a) n == Len(a) want == {[k \in 1..n |-> a[k][s[k]]] : s \in [1..n -> {1,2}]} IN
  {[k \in 1..n |-> R(v.r[i][k])] : i \in 1..Len(v.r)} = want /\ Len(v.r) = FoldSet(LAMBDA k, s : 2*s,1,1..n)
(* --------------------------- arithmetic of upper intervals -------------------------- *)
ArImg(v) == LET s == [i \in 1..Len(v.a) |-> Iv(v.a[i])] IN
  CASE v.f = "isqrt" -> IF RLt(s[1][2],Zero) THEN <<>> ELSE LET r == Img("sqrt",<<<<s[1][2],s[1][2]>>>>,0) IN << <<RNeg(r[1][2]),r[1][2]>>, <<RNeg(r[2][2]),r[2][2]>> >>
    [] v.f = "ilog" -> IF RLe(s[1][2],Zero) THEN <<>> ELSE LET r == Img("log",<<<<s[1][2],s[1][2]>>>>,0) IN IF RLe(s[1][1],Zero) THEN << <<NInf,r[1][2]>>, <<NInf,r[2][2]>> >> ELSE Img("log",s,0)
    [] OTHER -> Img(v.f,s,v.n)
OkArith(v) == IF v.f = "rec" /\ HasZero(Iv(v.a[1])) THEN TRUE ELSE LET g == ArImg(v) r == Iv(v.r) IN IF g = <<>> THEN Emp(r)
   ELSE Sound(g,r) /\ (v.f \in {"add","sub","mul","neg","pos","sqr","hlf","abs","max","min","isqrt","exp","ilog"} => ~RIsFin(g[2][1]) \/ ~RIsFin(g[2][2]) \/ RLt(RTwoExp(1000),IMag(g[2])) \/ Tight(g,r,RAdd(RMul(RTwoExp(-44),RAdd(IMag(g[2]),IF v.f \in {"add","sub"} THEN IMag(Iv(v.a[1])) ELSE Zero)),Tiny)))
OkMag(v) == LET a == Iv(v.a) IN REq(R(v.r),IMag(a)) /\ REq(R(v.m),IF HasZero(a) THEN Zero ELSE RMin(RAbs(a[1]),RAbs(a[2])))
OkICmp(v) == LET a == Iv(v.a) b == Iv(v.b) IN CmpSound("lt",a,b,v.lt) /\ CmpSound("lt",a,b,v.lo) /\ CmpSound("eq",a,b,v.eq) /\ CmpSound("gt",a,b,v.gt) /\ CmpDecided("lt",a,b,v.lt) /\ CmpDecided("gt",a,b,v.gt)
OkRefn(v) == LET a == Iv(v.a) b == Iv(v.b) m == IMeet(a,b) IN REq(Iv(v.r)[1],m[1]) /\ REq(Iv(v.r)[2],m[2]) /\ (v.rs <=> (RLe(b[1],a[1]) /\ RLe(a[2],b[2]))) /\ (v.sm <=> (REq(a[1],b[1]) /\ REq(a[2],b[2])))
OkSame(v) == \A i \in 1..Len(v.r) : REq(Iv(v.r[i])[1],Iv(v.a)[1]) /\ REq(Iv(v.r[i])[2],Iv(v.a)[2])
(* ------------------------------ widening and narrowing ------------------------------ *)
FloatTol(i) == RAdd(RMul(RTwoExp(-22),IMag(i)),RTwoExp(-125))
OkWide(v) == LET a == Bx(v.a) r == Bx(v.r) e == R(v.e) IN Len(r) = Len(a) /\ \A k \in 1..Len(a) :
  LET x == a[k] y == r[k] tol == RAdd(RMul(RTwoExp(-50),RAdd(IMag(x),e)),RTwoExp(-1000)) IN
  CASE v.f = "widen" -> RLt(y[1],x[1]) /\ RLt(x[2],y[2]) /\ RLe(RSub(x[1],tol),y[1]) /\ RLe(y[2],RAdd(x[2],tol))
    [] v.f = "widene" -> RLe(y[1],RSub(x[1],e)) /\ RLe(RAdd(x[2],e),y[2]) /\ RLe(RSub(RSub(x[1],e),tol),y[1]) /\ RLe(y[2],RAdd(RAdd(x[2],e),tol))
    [] v.f = "narrow" -> RLt(x[1],y[1]) /\ RLt(y[2],x[2]) /\ RLe(y[1],RAdd(x[1],tol)) /\ RLe(RSub(x[2],tol),y[2])
    [] v.f = "narrowe" -> RLe(RAdd(x[1],e),y[1]) /\ RLe(y[2],RSub(x[2],e)) /\ RLe(y[1],RAdd(RAdd(x[1],e),tol)) /\ RLe(RSub(RSub(x[2],e),tol),y[2])
    [] v.f = "dom" -> RLe(y[1],x[1]) /\ RLe(x[2],y[2]) /\ (REq(x[1],x[2]) => RLt(y[1],x[1]) /\ RLt(x[2],y[2])) /\ RLe(RSub(x[1],FloatTol(x)),y[1]) /\ RLe(y[2],RAdd(x[2],FloatTol(x)))
    [] v.f = "approx" -> RLe(RAbs(RSub(x[1],y[1])),RMul("2",FloatTol(x))) /\ RLe(RAbs(RSub(x[2],y[2])),RMul("2",FloatTol(x)))
    [] v.f = "exact" -> REq(x[1],y[1]) /\ REq(x[2],y[2])
    [] v.f = "outer" -> RLe(y[1],x[1]) /\ RLe(x[2],y[2]) /\ RLe(RSub(x[1],tol),y[1]) /\ RLe(y[2],RAdd(x[2],tol))
OkImage(v) == LET a == Bx(v.a) r == Bx(v.r) IN IF v.em THEN Emp(Iv(v.r0)) /\ BEmp(r) ELSE
  \A i \in 1..2 : \A j \in 1..2 : LET x == a[1][i] y == a[2][j] f == RSub(RMul(x,y),y) IN In(f,r[1]) /\ In(f,Iv(v.r0)) /\ In(RAdd(x,y),r[2])
(* -------------------------------- unions of intervals -------------------------------- *)
Us(s) == TLCEval([k \in 1..Len(s) |-> Iv(s[k])])
Cuts(a,b,r) == {s[k][e] : s \in {a}, k \in 1..Len(a), e \in {1,2}} \cup {b[k][e] : k \in 1..Len(b), e \in {1,2}} \cup {r[k][e] : k \in 1..Len(r), e \in {1,2}}
\* the elementary intervals between neighbouring ends, by their centres
Cells(C) == {<<p,q>> \in C \X C : RLt(p,q) /\ \A z \in C : RLe(z,p) \/ RLe(q,z)}
InU(x,s) == \E k \in 1..Len(s) : RLt(s[k][1],x) /\ RLt(x,s[k][2])
MeasureOf(s,cells) == FoldSet(LAMBDA c, t : IF InU(Mid(c),s) THEN RAdd(t,RSub(c[2],c[1])) ELSE t,Zero,cells)
InF(f,x,a,b) == CASE f = "make" -> InU(x,a) [] f = "inter" -> InU(x,a) /\ InU(x,b) [] f = "join" -> InU(x,a) \/ InU(x,b)
OkUnion(v) == LET a == Us(v.a) b == Us(v.b) r == Us(v.r) cells == Cells(Cuts(a,b,r)) m == Iv(v.m) g == MeasureOf(r,cells) IN
  /\ \A c \in cells : InU(Mid(c),r) <=> InF(v.f,Mid(c),a,b)
  /\ \A k \in 1..(Len(r)-1) : RLe(r[k][2],r[k+1][1])
  /\ \A k \in 1..Len(r) : RLt(r[k][1],r[k][2])
  /\ RLe(m[1],g) /\ RLe(g,m[2]) /\ RLe(RSub(m[2],m[1]),RMul(RTwoExp(-45),g))
  /\ (Len(r) > 0 /\ Len(v.bb) > 0) => REq(Iv(v.bb)[1],r[1][1]) /\ \A k \in 1..Len(r) : RLe(r[k][2],Iv(v.bb)[2])
OkUPred(v) == LET a == Us(v.a) b == Us(v.b) cells == Cells(Cuts(a,b,<<>>)) sub == \A c \in cells : InU(Mid(c),a) => InU(Mid(c),b) sup == \A c \in cells : InU(Mid(c),b) => InU(Mid(c),a) meet == \E c \in cells : InU(Mid(c),a) /\ InU(Mid(c),b) IN
  v.r <=> (CASE v.f = "subset" -> sub [] v.f = "covers" -> sup [] v.f \in {"intersect","overlaps"} -> meet [] v.f = "nooverlap" -> ~meet)
\* a lower measurable set: all but at most e of the union; its measure is bounded from below
OkLms(v) == LET a == Us(v.a) b == Us(v.b) cells == Cells(Cuts(a,b,<<>>)) g == FoldSet(LAMBDA c, t : IF (CASE v.f = "make" -> InU(Mid(c),a) [] v.f = "join" -> InU(Mid(c),a) \/ InU(Mid(c),b) [] OTHER -> InU(Mid(c),a) /\ InU(Mid(c),b)) THEN RAdd(t,RSub(c[2],c[1])) ELSE t,Zero,cells) m == Iv(v.m) IN
  /\ RLe(Zero,m[1])
  /\ RLe(m[1],RMax(Zero,RSub(g,Zero))) /\ RLe(RMax(Zero,RSub(g,R(v.e))),m[1])
Ok(v) == CASE v.ev = "pred" -> OkPred(v) [] v.ev = "set" -> OkSet(v) [] v.ev = "str" -> OkStr(v) [] v.ev = "num" -> OkNum(v) [] v.ev = "rad" -> OkRad(v) [] v.ev = "split" -> OkSplit(v) [] v.ev = "split2" -> OkSplit2(v)
           [] v.ev = "bsplit" -> OkBSplit(v) [] v.ev = "corners" -> OkCorners(v) [] v.ev = "vertices" -> OkVertices(v) [] v.ev = "arith" -> OkArith(v) [] v.ev = "mag" -> OkMag(v) [] v.ev = "icmp" -> OkICmp(v) [] v.ev = "refn" -> OkRefn(v)
           [] v.ev = "same" -> OkSame(v) [] v.ev = "wide" -> OkWide(v) [] v.ev = "image" -> OkImage(v) [] v.ev = "union" -> OkUnion(v) [] v.ev = "upred" -> OkUPred(v) [] v.ev = "lms" -> OkLms(v) [] OTHER -> FALSE
Why(v) == CASE v.ev = "pred" -> <<v.f,v.k1,v.k2,v.r>> [] v.ev \in {"set","str","arith","wide","union","upred","lms"} -> <<v.ev,v.f>> [] v.ev = "num" -> <<v.f,v.k,v.d>> [] v.ev = "fail" -> <<v.what>> [] OTHER -> <<v.ev>>
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),Why(E)) /\ l' = l+1 /\ Done(l+1)
Spec == Init /\ [][Next]_l
================================================================================
