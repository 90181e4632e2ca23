------------------------------- MODULE KleeneMC -------------------------------
(* Two propositions with fixed truth values p, q, of which more and more becomes  *)
(* known (a, b); every compound answer must never lie and never be withdrawn.      *)
EXTENDS Kleene
VARIABLES p, q, a, b, old
vars == <<p,q,a,b,old>>
Knows(v,truth) == (v = 2 => truth) /\ (v = -2 => ~truth)
Init == p \in BOOLEAN /\ q \in BOOLEAN /\ a \in LV /\ b \in LV /\ Knows(a,p) /\ Knows(b,q) /\ old = <<a,b>>
Learn == \E c \in LV : /\ Knows(c,p) /\ (Determinate(a) => c = a) /\ a' = c /\ old' = <<a,b>> /\ UNCHANGED <<p,q,b>>
Learn2 == \E c \in LV : /\ Knows(c,q) /\ (Determinate(b) => c = b) /\ b' = c /\ old' = <<a,b>> /\ UNCHANGED <<p,q,a>>
Next == Learn \/ Learn2
Spec == Init /\ [][Next]_vars
Truth(f) == CASE f = "and" -> p /\ q [] f = "or" -> p \/ q [] f \in {"xor","ne"} -> p # q [] f = "eq" -> p = q
Ops == {"and","or","xor","ne","eq"}
NeverLies == \A f \in Ops : Knows(Ap(f,a,b),Truth(f)) /\ Knows(Not(a),~p)
NeverWithdrawn == \A f \in Ops : Determinate(Ap(f,old[1],old[2])) => Ap(f,a,b) = Ap(f,old[1],old[2])
Complete == Determinate(a) /\ Determinate(b) => \A f \in Ops : Determinate(Ap(f,a,b))
Lazy == (a = -2 => And(a,b) = -2) /\ (a = 2 => Or(a,b) = 2)
DeMorgan == Not(And(a,b)) = Or(Not(a),Not(b)) /\ Not(Or(a,b)) = And(Not(a),Not(b)) /\ Xor(a,b) = Xor(b,a) /\ Not(Not(a)) = a
TypesNeverLie == \A t \in Types : Knows(Clamp(t,a),p) /\ Clamp(Neg(t),Not(a)) = Not(Clamp(t,a))
===============================================================================
