-------------------------------- MODULE Kleene --------------------------------
(* The truth values of the library: -2 definitely false, -1 unlikely, 0 unknown,  *)
(* 1 likely, 2 definitely true.  -1, 0, 1 carry no definite information; the       *)
(* guesses -1 and 1 only steer decide().  A logical type limits the definite        *)
(* information it can hold: the lower types never hold definite falsity, the        *)
(* upper types never definite truth, the approximate types neither.                 *)
EXTENDS Integers, Sequences
LV == -2..2
Min(a,b) == IF a <= b THEN a ELSE b
Max(a,b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Not(a) == -a
And(a,b) == Min(a,b)
Or(a,b) == Max(a,b)
Eqv(a,b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF (a < 0) = (b < 0) THEN Min(Abs(a),Abs(b)) ELSE -Min(Abs(a),Abs(b))
Xor(a,b) == -Eqv(a,b)
Definitely(a) == a = 2
Possibly(a) == a # -2
Decide(a) == a >= 1
Determinate(a) == Abs(a) = 2
Types == {"Boolean","ValidatedSierpinskian","ValidatedNegatedSierpinskian","ValidatedKleenean","ValidatedLowerKleenean","ValidatedUpperKleenean","ApproximateKleenean",
          "Sierpinskian","NegatedSierpinskian","Kleenean","LowerKleenean","UpperKleenean","NaiveKleenean"}
Lo(t) == IF t \in {"ValidatedSierpinskian","ValidatedLowerKleenean","ApproximateKleenean","Sierpinskian","LowerKleenean","NaiveKleenean"} THEN -1 ELSE -2
Hi(t) == IF t \in {"ValidatedNegatedSierpinskian","ValidatedUpperKleenean","ApproximateKleenean","NegatedSierpinskian","UpperKleenean","NaiveKleenean"} THEN 1 ELSE 2
Clamp(t,v) == Max(Lo(t),Min(Hi(t),v))
Neg(t) == CASE t = "ValidatedSierpinskian" -> "ValidatedNegatedSierpinskian" [] t = "ValidatedNegatedSierpinskian" -> "ValidatedSierpinskian"
            [] t = "ValidatedLowerKleenean" -> "ValidatedUpperKleenean" [] t = "ValidatedUpperKleenean" -> "ValidatedLowerKleenean"
            [] t = "Sierpinskian" -> "NegatedSierpinskian" [] t = "NegatedSierpinskian" -> "Sierpinskian"
            [] t = "LowerKleenean" -> "UpperKleenean" [] t = "UpperKleenean" -> "LowerKleenean" [] OTHER -> t
Ap(f,a,b) == CASE f = "and" -> And(a,b) [] f = "or" -> Or(a,b) [] f = "xor" -> Xor(a,b) [] f = "ne" -> Xor(a,b) [] f = "eq" -> Eqv(a,b)
\* a question asked with effort e: trees over constants and questions that become known at effort k
RECURSIVE Val(_,_)
Val(t,e) == CASE t[1] = "c" -> t[2]
              [] t[1] = "dj" -> IF e > t[2] THEN 2 ELSE 0        \* a disjunction of a sequence whose member t[2] is true
              [] t[1] = "cj" -> IF e > t[2] THEN -2 ELSE 0
              [] t[1] = "not" -> Not(Val(t[2],e))
              [] OTHER -> Ap(t[1],Val(t[2],e),Val(t[3],e))
===============================================================================
