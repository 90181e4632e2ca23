--------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic for the Ariadne specifications, extended with the  *)
(* two infinities "inf" and "-inf" and the undefined value "nan" where a        *)
(* floating-point type has them.                                                *)
(*                                                                              *)
(* A rational is represented by the canonical string of its reduced fraction    *)
(* ("3", "-5/7"); trace files may also use the dyadic notation "mbE" for m*2^E  *)
(* (an exactly logged binary floating-point number).  TLC integers are 32 bits  *)
(* wide, so every operator of this module is evaluated by the Java class Rat    *)
(* (Rat.java, unbounded integers); the definitions below give its meaning on    *)
(* pairs <<n,d>> and are compared with the Java class, operator by operator, on *)
(* all small fractions by RatSelfTest.tla.                                      *)
EXTENDS Integers, Sequences
LOCAL Err == CHOOSE x \in {} : TRUE

R(s)      == Err       \* canonical form of any accepted notation (string or integer)
RInt(n)   == Err       \* the integer n
RFrac(n,d)== Err       \* n/d  (n,d integers)
RIsFin(a) == Err       \* neither infinite nor nan
RIsNan(a) == Err
RAdd(a,b) == Err
RSub(a,b) == Err
RMul(a,b) == Err
RDiv(a,b) == Err       \* a/b ; nan if b = 0
RNeg(a)   == Err
RAbs(a)   == Err
RMin(a,b) == Err
RMax(a,b) == Err
RPow(a,n) == Err       \* a^n, n an integer
RCmp(a,b) == Err       \* -1, 0, 1
RLe(a,b)  == Err       \* FALSE if either is nan
RLt(a,b)  == Err
REq(a,b)  == Err
RSgn(a)   == Err
RFloor(a) == Err       \* as a rational
RCeil(a)  == Err
RTwoExp(n)== Err       \* 2^n, n an integer
RDenPow2(a) == Err     \* TRUE iff the reduced denominator is a power of two
RNum(a)   == Err       \* reduced numerator / denominator, as rationals
RDen(a)   == Err
RToInt(a) == Err       \* TLC integer, when it is one of 32 bits
RSum(s)   == Err       \* sum of a sequence
RDot(s,t) == Err       \* sum of products
RRoundDn(a,p,emin) == Err \* greatest m*2^e <= a with |m| < 2^p and e >= emin
RRoundUp(a,p,emin) == Err \* least    m*2^e >= a with |m| < 2^p and e >= emin
(* Rational bounds of real functions, correct to about 2^-k relative to max(1,|f|): *)
(* RLo(f,a,k) <= f(a) <= RHi(f,a,k).  f is one of "exp" "log" "sin" "cos" "tan"   *)
(* "atan" "asin" "acos" "sqrt" "pi" (pi ignores a).                             *)
RLo(f,a,k) == Err
RHi(f,a,k) == Err
(* Value of a decimal literal such as "-1.25e-3".                               *)
RDecimal(s) == Err
==============================================================================
