--------------------------------- MODULE HP ---------------------------------
(***************************************************************************)
(* Real arithmetic.  The definitions below give the meaning of every       *)
(* operator over the mathematical reals; they are not evaluated by TLC.    *)
(* TLC evaluates the operators with the Java module override               *)
(* ../java/HP.java, which computes with 50 significant decimal digits, so  *)
(* that a number computed here is an oracle for one computed by the        *)
(* implementation in 53-bit binary floating point.                         *)
(*                                                                         *)
(* The arithmetic is total: an undefined result (division by zero, square  *)
(* root of a negative number, the images of the floating-point values NaN  *)
(* and infinity) is the value NaR, which is absorbing for the operations   *)
(* and for which every comparison is FALSE.                                *)
(***************************************************************************)
LOCAL INSTANCE Reals
LOCAL INSTANCE Sequences

NaR == CHOOSE v : v \notin Real

\* The real denoted by a decimal numeral (a string) or by an integer.
R(s) == CHOOSE v \in Real \cup {NaR} : TRUE
\* A decimal numeral for a real, 25 digits.
RStr(a) == CHOOSE s \in STRING : TRUE

RAdd(a, b) == IF {a, b} \subseteq Real THEN a + b ELSE NaR
RSub(a, b) == IF {a, b} \subseteq Real THEN a - b ELSE NaR
RMul(a, b) == IF {a, b} \subseteq Real THEN a * b ELSE NaR
RDiv(a, b) == IF {a, b} \subseteq Real /\ b # 0 THEN a / b ELSE NaR
RNeg(a)    == IF a \in Real THEN 0 - a ELSE NaR
RAbs(a)    == IF a \in Real THEN (IF a < 0 THEN 0 - a ELSE a) ELSE NaR
RSqrt(a)   == IF a \in Real /\ a >= 0 THEN CHOOSE r \in Real : r >= 0 /\ r * r = a ELSE NaR
RLt(a, b)  == {a, b} \subseteq Real /\ a < b
RLe(a, b)  == {a, b} \subseteq Real /\ a <= b
RIs(a)     == a \in Real
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
\* round-to-nearest integer (as a TLC integer), ties upward
RFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
\* Sum and inner product of sequences of reals
RECURSIVE RSum(_)
RSum(s)    == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RDot(_, _)
RDot(u, v) == IF u = <<>> THEN 0 ELSE RAdd(RMul(Head(u), Head(v)), RDot(Tail(u), Tail(v)))
\* |a - b| <= tol * max(|a|, |b|, scale)
RClose(a, b, tol, scale) ==
    RLe(RAbs(RSub(a, b)), RMul(tol, RMax(RMax(RAbs(a), RAbs(b)), scale)))
=============================================================================
