----------------------------- MODULE FloatRawMC ------------------------------
(* The raw machine over a tiny format, explored completely: operations are        *)
(* performed by "save the mode, set the requested one, compute in the mode in      *)
(* force, restore", possibly nested (an operation that calls a rounded operation    *)
(* while it has the mode changed), and every result must be permitted, whatever     *)
(* mode the caller left in force.                                                   *)
EXTENDS FloatRaw
CONSTANTS P
VARIABLES stack, done
Nums == {RMul(RInt(m),RTwoExp(e)) : m \in {-3,-2,-1,0,1,2,3}, e \in {-1,1}}
Fs == {"add","sub","mul","div"}
InForce(m,v) == CASE m = "down" -> Dn("mp",P,v) [] m = "up" -> Up("mp",P,v)
                  [] m = "zero" -> (IF RLt(v,Zero) THEN Up("mp",P,v) ELSE Dn("mp",P,v))
                  [] m = "near" -> CHOOSE r \in {Dn("mp",P,v),Up("mp",P,v)} : Nearest("mp",P,v,r)
Init == mode \in Modes /\ stack = <<>> /\ done = [f |-> "none"]
\* a call with an explicit direction saves the mode
Call(rnd) == done.f = "none" /\ Len(stack) < 2 /\ stack' = Append(stack,[saved |-> mode, rnd |-> rnd]) /\ mode' = rnd /\ done' = [f |-> "none"]
Compute(f,a,b) == /\ done.f = "none" /\ stack # <<>> /\ ~(f = "div" /\ b = Zero)
                  /\ LET s == stack[Len(stack)] v == ExactValue(f,<<a,b>>,0)
                     IN /\ done' = [f |-> f, a |-> <<a,b>>, rnd |-> s.rnd, r |-> InForce(mode,v), before |-> s.saved, after |-> s.saved]
                        /\ mode' = s.saved /\ stack' = SubSeq(stack,1,Len(stack)-1)
Return == done.f # "none" /\ done' = [f |-> "none"] /\ UNCHANGED <<mode,stack>>
Next == Return \/ (\E rnd \in {"near","down","up"} : Call(rnd)) \/ (\E f \in Fs, a \in Nums, b \in Nums : Compute(f,a,b))
Correct == done.f # "none" => Permitted("mp",P,done.f,done.rnd,done.a,0,done.r)
Restored == done.f # "none" => mode = done.before
\* rounding is idempotent, monotone and a lower/upper bound
Rounding == \A a \in Nums : \A b \in {"1","3","5","7"} : LET v == RDiv(a,b) IN
              /\ RLe(Dn("mp",P,v),v) /\ RLe(v,Up("mp",P,v)) /\ Dn("mp",P,Dn("mp",P,v)) = Dn("mp",P,v)
              /\ \A c \in Nums : RLe(c,v) => RLe(Dn("mp",P,c),Dn("mp",P,v))
ASSUME Rounding
Spec == Init /\ [][Next]_<<mode,stack,done>>
===============================================================================
