-------------------------------- MODULE RealMC --------------------------------
(* Design model of effective reals.  A real is a fast Cauchy sequence w_1..w_N of  *)
(* grid numbers (units of 2^-N), |w_m-w_n| <= 2^-min(m,n).  A client asks for an   *)
(* accuracy; the algorithm raises the effort until the error of the bounds         *)
(* w_n +- 2^-n is small enough.  TLC explores every sequence on the grid and every *)
(* accuracy: bounds of all efforts contain the limit, they are consistent, a       *)
(* comparison with bounded effort never lies, and the loop terminates.             *)
EXTENDS Integers, Sequences
CONSTANTS N, Range
VARIABLES w, acc, eff, res, pc
vars == <<w,acc,eff,res,pc>>
P(k) == 2^k
Rad(n) == P(N-n)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a,b) == IF a < b THEN a ELSE b
Fast(s) == \A m,n \in 1..Len(s) : Abs(s[m]-s[n]) <= Rad(Min(m,n))
Init == /\ w = <<>> /\ acc \in 1..N /\ eff = 0 /\ res = <<0,0>> /\ pc = "build"
Build == /\ pc = "build" /\ Len(w) < N
         /\ \E v \in -Range..Range : LET s == Append(w,v) IN Fast(s) /\ w' = s
         /\ UNCHANGED <<acc,eff,res,pc>>
Start == pc = "build" /\ Len(w) = N /\ pc' = "loop" /\ UNCHANGED <<w,acc,eff,res>>
\* one round of Real::compute(Accuracy): the error allowed is 2^-acc
Round == /\ pc = "loop" /\ eff < N
         /\ eff' = eff+1
         /\ res' = <<w[eff+1]-Rad(eff+1),w[eff+1]+Rad(eff+1)>>
         /\ pc' = IF Rad(eff+1) <= Rad(acc) THEN "done" ELSE "loop"
         /\ UNCHANGED <<w,acc>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Build \/ Start \/ Round \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Limit == w[N]                       \* the limit is w[N] up to one unit; take it as the real number
Contains == pc \in {"loop","done"} /\ eff > 0 => res[1] <= Limit /\ Limit <= res[2]
Accurate == pc = "done" => res[2]-res[1] <= 2*Rad(acc)
Consistent == pc \in {"loop","done"} => \A m,n \in 1..N : w[m]-Rad(m) <= w[n]+Rad(n)
\* comparing with 0 by the sign of the bounds
NeverLies == (pc \in {"loop","done"} /\ eff > 0) => (res[1] > 0 => Limit > 0) /\ (res[2] < 0 => Limit < 0)
Terminates == <>(pc = "done")
===============================================================================
