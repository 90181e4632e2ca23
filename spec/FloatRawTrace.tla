---------------------------- MODULE FloatRawTrace ----------------------------
EXTENDS FloatRaw, TraceBase
VARIABLE l
E == Trace[l]
Args(e) == [i \in 1..Len(e.a) |-> R(e.a[i])]
OkInt(f,v,r) == CASE f = "floor" -> r = RFloor(v) [] f = "ceil" -> r = RCeil(v)
                  [] f = "round" -> RLe(RAbs(RSub(v,r)),"1/2") /\ REq(RFloor(r),r)
\* exact comparison of represented numbers: three-way result (9: not offered) and the six operators
OkCmp(c,r,o) == (r = 9 \/ r = c) /\ o = <<c = 0, c # 0, c = -1, c = 1, c # 1, c # -1>>
OkCast(v,r) == IF REq(RFloor(v),v) THEN r # "exc" /\ R(r) = v ELSE r = "exc"     \* exact or refused
\* decimal text rounded in a direction, with at most tol of error
OkText(rnd,v,r,tol) == /\ rnd = "down" => RLe(r,v)
                       /\ rnd = "up" => RLe(v,r)
                       /\ RLe(RAbs(RSub(v,r)),tol)
Ok(e) == CASE e.ev = "raw" -> e.r # "exc" /\ e.m0 = e.m1 /\ Permitted(e.t,e.p,e.f,e.rnd,Args(e),e.n,R(e.r))
           [] e.ev = "cmp" -> OkCmp(RCmp(R(e.a[1]),R(e.a[2])),e.r,e.ops)
           [] e.ev = "int" /\ e.f = "cast" -> OkCast(R(e.a[1]),e.r)
           [] e.ev = "int" /\ e.f # "cast" -> e.r # "exc" /\ OkInt(e.f,R(e.a[1]),R(e.r))
           [] e.ev = "same" -> e.r # "exc" /\ R(e.a[1]) = R(e.r)       \* value-preserving conversions
           [] e.ev = "text" -> e.r # "exc" /\ OkText(e.rnd,R(e.a[1]),RDecimal(e.r),R(e.tol))
Init == l = 1 /\ mode = "near"
Next == /\ l <= TraceLen
        /\ Judge(l,Ok(E),E.ev \o " " \o E.f)
        /\ IF E.ev = "raw" THEN mode' = E.m1 ELSE UNCHANGED mode
        /\ l' = l + 1
        /\ Done(l')
Spec == Init /\ [][Next]_<<l,mode>>
===============================================================================
