-------------------------------- MODULE Exact --------------------------------
(* Exact numbers.  The state is a set of variables of a program, each of which   *)
(* holds an integer, dyadic, decimal or rational (possibly +-inf or nan); every   *)
(* action assigns to one of them the exact value of an operation on others, and  *)
(* leaves all others alone.  A moved-from variable is "?" until assigned again.   *)
EXTENDS Integers, Sequences, Rat
VARIABLE reg
Lost == "?"
\* the exact value of operation f; "refused" if it may not give a value
F1(f,x,n) == CASE f = "neg" -> RNeg(x) [] f = "pos" -> R(x) [] f = "nul" -> "0" [] f = "sqr" -> RMul(x,x) [] f = "abs" -> RAbs(x)
               [] f = "hlf" -> RDiv(x,"2") [] f = "rec" -> RDiv("1",x) [] f = "inc" -> RAdd(x,"1") [] f = "dec" -> RSub(x,"1")
               [] f = "shft" -> RMul(x,RTwoExp(n)) [] f = "pow" -> RPow(x,n)
F2(f,x,y) == CASE f = "add" -> RAdd(x,y) [] f = "sub" -> RSub(x,y) [] f = "mul" -> RMul(x,y) [] f = "div" -> RDiv(x,y)
               [] f = "min" -> RMin(x,y) [] f = "max" -> RMax(x,y)
               [] f = "quot" -> RFloor(RDiv(x,y)) [] f = "rem" -> RSub(x,RMul(y,RFloor(RDiv(x,y))))
IsDyadic(q) == RIsFin(q) /\ RDenPow2(q)
Value(f,a,n,lit) == CASE f = "const" -> R(lit) [] f = "parse" -> RDecimal(lit)
                      [] f = "parsew" -> IF IsDyadic(RDecimal(lit)) THEN RDecimal(lit) ELSE "refused"
                      [] Len(a) = 1 -> F1(f,a[1],n) [] Len(a) = 2 -> F2(f,a[1],a[2])
\* the assignment reg[d] := f(reg[s[1]],...)
Assign(d,f,s,n,lit) ==
    IF f = "move" THEN reg' = [reg EXCEPT ![d] = reg[s[1]], ![s[1]] = Lost]
    ELSE LET v == Value(f,[i \in 1..Len(s) |-> reg[s[i]]],n,lit)
         IN IF v = "refused" THEN UNCHANGED reg ELSE reg' = [reg EXCEPT ![d] = v]
RECURSIVE Fac(_)
Fac(n) == IF n = 0 THEN "1" ELSE RMul(n,Fac(n-1))
Bin(n,k) == IF k > n THEN "0" ELSE RDiv(Fac(n),RMul(Fac(k),Fac(n-k)))
\* exact images of intervals <<l,u>>
Hull4(a,b,c,d) == <<RMin(RMin(a,b),RMin(c,d)),RMax(RMax(a,b),RMax(c,d))>>
Zero(x) == RLe(x[1],"0") /\ RLe("0",x[2])
Img1(f,x,n) == CASE f = "neg" -> <<RNeg(x[2]),RNeg(x[1])>> [] f = "pos" -> <<R(x[1]),R(x[2])>> [] f = "hlf" -> <<RDiv(x[1],"2"),RDiv(x[2],"2")>>
                 [] f = "sqr" -> <<IF Zero(x) THEN "0" ELSE RMin(RMul(x[1],x[1]),RMul(x[2],x[2])), RMax(RMul(x[1],x[1]),RMul(x[2],x[2]))>>
                 [] f = "abs" -> <<IF Zero(x) THEN "0" ELSE RMin(RAbs(x[1]),RAbs(x[2])), RMax(RAbs(x[1]),RAbs(x[2]))>>
                 [] f = "rec" -> IF Zero(x) THEN <<"-inf","inf">> ELSE <<RDiv("1",x[2]),RDiv("1",x[1])>>
                 [] f = "pow" -> IF n % 2 = 1 /\ n > 0 THEN <<RPow(x[1],n),RPow(x[2],n)>> ELSE IF n = 0 THEN <<"1","1">>
                                 ELSE IF n > 0 THEN <<IF Zero(x) THEN "0" ELSE RMin(RPow(x[1],n),RPow(x[2],n)),RMax(RPow(x[1],n),RPow(x[2],n))>>
                                 ELSE <<RMin(RPow(x[1],n),RPow(x[2],n)),RMax(RPow(x[1],n),RPow(x[2],n))>>
Img2(f,x,y) == CASE f = "add" -> <<RAdd(x[1],y[1]),RAdd(x[2],y[2])>> [] f = "sub" -> <<RSub(x[1],y[2]),RSub(x[2],y[1])>>
                 [] f = "mul" -> Hull4(RMul(x[1],y[1]),RMul(x[1],y[2]),RMul(x[2],y[1]),RMul(x[2],y[2]))
                 [] f = "div" -> IF Zero(y) THEN <<"-inf","inf">> ELSE Hull4(RDiv(x[1],y[1]),RDiv(x[1],y[2]),RDiv(x[2],y[1]),RDiv(x[2],y[2]))
                 [] f = "max" -> <<RMax(x[1],y[1]),RMax(x[2],y[2])>> [] f = "min" -> <<RMin(x[1],y[1]),RMin(x[2],y[2])>>
                 [] f = "refinement" -> <<RMax(x[1],y[1]),RMin(x[2],y[2])>> [] f = "coarsening" -> <<RMin(x[1],y[1]),RMax(x[2],y[2])>>
===============================================================================
