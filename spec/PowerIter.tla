------------------------------ MODULE PowerIter ------------------------------
(***************************************************************************)
(* Power iteration: x is replaced by A x, normalised.  Variants 1 and 4    *)
(* stop when the vector (normalised in the Euclidean norm and in the sum   *)
(* norm) changes by at most the tolerance, in the sum norm, up to its      *)
(* sign; variants 2 and 3 when the Rayleigh quotient changes by at most    *)
(* the tolerance.  All leave a unit vector and return its Rayleigh         *)
(* quotient; the count is that of the iteration (from 0) that stopped, or  *)
(* the limit.                                                              *)
(***************************************************************************)
EXTENDS Lin
Norm1(v) == RSum([i \in 1..Len(v) |-> RAbs(v[i])])
Unit(v)  == VScale(RDiv(R(1), Norm2(v)), v)
Scaled(variant, v) == IF variant = 4 THEN VScale(RDiv(R(1), Norm1(v)), v) ELSE Unit(v)
Rayleigh(A, x) == RDiv(Quad(A, x), RDot(x, x))
PiInit(variant, A, x) == LET y == Scaled(variant, x) IN [x |-> y, v |-> Rayleigh(A, y), d |-> R("1e999")]
PiStep(variant, A, s) ==
    LET y == Scaled(variant, MatVec(A, s.x))
        v == TLCEval(Rayleigh(A, y)) IN
    [x |-> y, v |-> v,
     d |-> IF variant \in {1, 4} THEN RMin(Norm1(VSub(y, s.x)), Norm1(VAdd(y, s.x))) ELSE RAbs(RSub(v, s.v))]
Frob(A) == RSqrt(RSum([i \in 1..Len(A) |-> RDot(A[i], A[i])]))
EigResidual(A, x) == Norm2(Axpy(RNeg(Rayleigh(A, x)), x, MatVec(A, x)))
==============================================================================
