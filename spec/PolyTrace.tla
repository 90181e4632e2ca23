------------------------------- MODULE PolyTrace -------------------------------
(* Histories of expansions are behaviours of a list of terms; algebra on polynomials *)
(* encloses the exact polynomial algebra of Poly.                                    *)
EXTENDS Expansion, TraceBase
VARIABLES l, e
E == Trace[l]
(* ------------------------------ multi-indices ------------------------------------ *)
OkMi(v) == CASE v.f = "next" -> v.r = MNext(v.a)
  [] v.f = "add" -> v.r = MAdd(v.a,v.b)
  [] v.f = "mul" -> v.r = MScale(v.a,v.k)
  [] v.f = "deg" -> v.r = <<Deg(v.a)>>
  [] v.f = "lt_graded" -> v.r = GradedLess(v.a,v.b)
  [] v.f = "lt_lex" -> v.r = LexLess(v.a,v.b)
  [] v.f = "lt_rlex" -> v.r = RLexLess(v.a,v.b)
  [] v.f = "eq" -> v.r = (v.a = v.b)
  [] v.f = "ne" -> v.r = (v.a # v.b)
  [] v.f = "sub" -> v.r = v.a
  [] v.f = "copy" -> v.r = v.b
  [] v.f = "unit" -> v.r = MUnit(Len(v.a),(v.k % Len(v.a)) + 1)
(* ------------------------ the expansion as a state machine ------------------------- *)
Same(c,d) == REq(c[1],d[1]) /\ REq(c[2],d[2])
SameList(s,t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i][1] = t[i][1] /\ Same(s[i][2],t[i][2])
IsZero(c) == REq(c[1],"0") /\ REq(c[2],"0")
NoZero(s) == SelectSeq(s,LAMBDA x : ~IsZero(x[2]))
RECURSIVE Combine(_,_)
Combine(s,acc) == IF s = <<>> THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = s[1][1]
       THEN Combine(Tail(s),[acc EXCEPT ![Len(acc)] = <<s[1][1],<<RAdd(@[2][1],s[1][2][1]),RAdd(@[2][2],s[1][2][2])>>>>])
       ELSE Combine(Tail(s),Append(acc,s[1]))
Count(s,x) == Cardinality({i \in 1..Len(s) : s[i][1] = x[1] /\ Same(s[i][2],x[2])})
Permutation(s,t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s,s[i]) = Count(t,s[i])
OkHist(v) ==
  LET s == e plain == v.t = "plain" IN
  CASE v.f = "new" -> v.r = <<>>
    [] v.f = "set" -> SameList(v.r,IF plain THEN SetT(s,v.a,v.c) ELSE SetS(v.t,s,v.a,v.c))
    [] v.f = "get" -> SameList(v.r,s) /\ LET i == Find(s,v.a) IN Same(v.q,IF i = 0 THEN <<"0","0">> ELSE s[i][2])
    [] v.f = "copy" -> SameList(v.r,s)
    [] v.f = "insert" -> IF Find(s,v.a) # 0 THEN ~v.q /\ SameList(v.r,s) ELSE v.q /\ SameList(v.r,SetS(v.t,s,v.a,v.c))
    [] v.f = "nozero" -> SameList(v.r,NoZero(s))
    [] v.f = "clear" -> v.r = <<>>
    [] v.f = "erase" -> SameList(v.r,RemAt(s,v.a[1]+1))
    [] v.f = "append" -> SameList(v.r,Append(s,<<v.a,v.c>>))
    [] v.f = "prepend" -> SameList(v.r,<<<<v.a,v.c>>>> \o s)
    [] v.f = "insertat" -> SameList(v.r,InsAt(s,v.a[Len(v.a)],<<SubSeq(v.a,1,Len(v.a)-1),v.c>>))
    [] v.f = "gsort" -> Permutation(v.r,s) /\ SortedBy(v.r,GradedLess)
    [] v.f = "rsort" -> Permutation(v.r,s) /\ SortedBy(v.r,RLexLess)
    [] v.f = "combine" -> SameList(v.r,Combine(s,<<>>))
(* -------------------------------- polynomials --------------------------------------- *)
\* result r (a list of <<monomial,<<lo,hi>>>>) encloses the exact polynomial p, and is a well-formed expansion
Wf(r) == StrictBy(r,RLexLess)
Slack(t,w,m) == IF w THEN "inf" ELSE RMul(RTwoExp(IF t = "mmb" THEN -60 ELSE -38),RAdd("1",m))
In1(c,q,s,app) == /\ ~RIsNan(c[1]) /\ ~RIsNan(c[2])
                  /\ (app \/ (RLe(c[1],q) /\ RLe(q,c[2])))
                  /\ (s = "inf" \/ (RLe(RSub(q,s),c[1]) /\ RLe(c[2],RAdd(q,s))))
Enc(v,p,wf) == LET app == v.t = "mda" s == Slack(v.t,v.w,PNorm(p)) D == {v.r[i][1] : i \in 1..Len(v.r)} IN
               /\ wf => Wf(v.r)
               /\ \A i \in 1..Len(v.r) : In1(v.r[i][2],Co(p,v.r[i][1]),s,app)
               /\ \A a \in DOMAIN p : a \in D \/ REq(p[a],"0")
\* as above for a list that may have several terms with the same monomial
OkPoly(v) ==
  LET p == PFrom(v.a) q == PFrom(v.b) c == R(v.c) n == v.n one(val) == In1(v.r,val,Slack(v.t,v.w,RAdd(PNorm(p),RAbs(val))),v.t = "mda") IN
  CASE v.f = "add" -> Enc(v,PAdd(p,q),TRUE)
    [] v.f = "sub" -> Enc(v,PSub(p,q),TRUE)
    [] v.f = "mul" -> Enc(v,PMul(p,q),TRUE)
    [] v.f = "neg" -> Enc(v,PNeg(p),TRUE)
    [] v.f = "pos" -> Enc(v,p,TRUE)
    [] v.f = "second" -> Enc(v,q,TRUE)
    [] v.f \in {"addc","cadd"} -> Enc(v,PAdd(p,PConst(n,c)),TRUE)
    [] v.f = "subc" -> Enc(v,PSub(p,PConst(n,c)),TRUE)
    [] v.f = "csub" -> Enc(v,PSub(PConst(n,c),p),TRUE)
    [] v.f \in {"mulc","cmul"} -> Enc(v,PScale(p,c),TRUE)
    [] v.f = "divc" -> Enc(v,PScale(p,RDiv("1",c)),TRUE)
    [] v.f = "const" -> Enc(v,PConst(n,c),TRUE)
    [] v.f = "dbl" -> Enc(v,PScale(p,"2"),TRUE)
    [] v.f = "zero" -> Enc(v,PZero,TRUE)
    [] v.f = "sqr" -> Enc(v,PMul(p,p),TRUE)
    [] v.f = "degree" -> v.r = PDegree(p) \/ (\E a \in DOMAIN p : Deg(a) = v.r /\ REq(p[a],"0") /\ v.r >= PDegree(p))
    [] v.f = "value" -> one(Co(p,MZero(n)))
    [] v.f = "get" -> one(Co(p,v.x[1]))
    [] v.f = "der" -> Enc(v,PDer(p,v.k+1),TRUE)
    [] v.f = "derplus" -> Enc(v,PAdd(PDer(p,v.k+1),q),TRUE)
    [] v.f = "derget" -> one(Co(PDer(p,v.k+1),v.x[1]))
    [] v.f = "anti" -> Enc(v,PAnti(p,v.k+1),TRUE)
    [] v.f = "trunc" -> Enc(v,PTrunc(p,v.k),TRUE)
    [] v.f = "eval" -> one(PEval(p,[i \in 1..n |-> R(v.x[i])]))
    [] v.f = "peval" -> Enc(v,PPart(p,v.k+1,R(v.x[1])),TRUE)
    [] v.f = "embed" -> Enc(v,PEmbed(p,v.k,v.x[1]),TRUE)
    [] v.f = "comp" -> Enc(v,PComp(p,[i \in 1..n |-> PFrom(v.x[i])],v.k),TRUE)
    [] v.f = "eq" -> (v.r[1] => PEq(p,q)) /\ (v.r[2] => ~PEq(p,q)) /\ (v.t # "mda" => (v.r[1] \/ v.r[2] \/ PEq(p,q)))
Strs(s) == [i \in 1..Len(s) |-> R(s[i])]
OkCheb(v) == LET a == Cheb(Strs(v.a),R(v.x)) b == Cheb(Strs(v.b),R(v.x)) c == R(v.c)
                 t == CASE v.f = "pos" -> a [] v.f = "add" -> RAdd(a,b) [] v.f = "sub" -> RSub(a,b) [] v.f = "mul" -> RMul(a,b) [] v.f = "neg" -> RNeg(a)
                        [] v.f = "addc" -> RAdd(a,c) [] v.f = "mulc" -> RMul(a,c) [] v.f = "sqr" -> RMul(a,a)
                 ab(s) == Cheb([i \in 1..Len(s) |-> RAbs(R(s[i]))],RAdd("1",RAbs(R(v.x))))
                 m == RMul(RAdd("1",ab(v.a)),RAdd("1",RAdd(ab(v.b),RAdd(RAbs(c),ab(v.a)))))
             IN RIsFin(v.r) /\ RLe(RAbs(RSub(R(v.r),t)),RMul(RTwoExp(-36),m))
Init == l = 1 /\ e = <<>>
Next == /\ l <= TraceLen
        /\ CASE E.ev = "mi" -> Judge(l,OkMi(E),E.f) /\ e' = e
             [] E.ev = "hist" -> Judge(l,OkHist(E),E.f) /\ e' = E.r
             [] E.ev = "poly" -> Judge(l,OkPoly(E),E.f) /\ e' = e
             [] E.ev = "cheb" -> Judge(l,OkCheb(E),E.f) /\ e' = e
             [] OTHER -> Judge(l,FALSE,"failure") /\ e' = e
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_<<l,e>>
================================================================================
