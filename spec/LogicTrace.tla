------------------------------ MODULE LogicTrace ------------------------------
(* The logical types of the code against Kleene: every entry of every table.      *)
EXTENDS Kleene, TraceBase
VARIABLE l
E == Trace[l]
B(x) == IF x THEN 1 ELSE 0
Query(f,v) == CASE f = "definitely" -> B(Definitely(v)) [] f = "possibly" -> B(Possibly(v)) [] f \in {"decide","probably"} -> B(Decide(v))
                [] f = "is_determinate" -> B(Determinate(v)) [] f = "is_indeterminate" -> B(~Determinate(v))
NamesOf == [v \in LV |-> CASE v = -2 -> "false" [] v = -1 -> "unlikely" [] v = 0 -> "indeterminate" [] v = 1 -> "likely" [] v = 2 -> "true"]
Ok(e) ==
  CASE e.ev = "mk" -> e.r = Clamp(e.t,e.a)                                  \* a value of type t made from a
    [] e.ev = "conv" -> e.r = Clamp(e.t,e.a)                                \* a value converted to type t
    [] e.ev = "not" -> e.r = Clamp(Neg(e.t),Not(Clamp(e.t,e.a)))
    [] e.ev = "bin" -> LET v == Ap(e.f,Clamp(e.t,e.a),Clamp(e.t,e.b)) IN e.r = Clamp(e.t,v)
    [] e.ev = "query" -> e.r = Query(e.f,Clamp(e.t,e.a))
    [] e.ev = "text" -> e.r = NamesOf[e.a]
    [] e.ev = "tree" -> e.r = Clamp(e.t,Val(e.a,e.n))
    [] e.ev = "choose" -> e.r \in {i-1 : i \in {k \in 1..Len(e.a) : e.a[k] # -1}}   \* only a true alternative is chosen
                          /\ \A k \in 1..Len(e.a) : e.a[k] # -1 => e.a[e.r+1] <= e.a[k]
Init == l = 1
Next == l <= TraceLen /\ Judge(l,Ok(E),E.ev) /\ l' = l+1 /\ Done(l')
Spec == Init /\ [][Next]_l
===============================================================================
