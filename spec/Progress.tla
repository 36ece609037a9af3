------------------------------- MODULE Progress ------------------------------
(***************************************************************************)
(* How fast the method closes in.  A cut of relative depth a shrinks the   *)
(* squared volume by Shrink(n, a); that is at most exp(-1/(n+1)) for a cut *)
(* through the centre or deeper, and a second plane only helps.  So after  *)
(* k such cuts an ellipsoid that still contains a ball of radius r has     *)
(*        r <= R exp(-k / (2 n (n+1))),   R the mean half-axis at first.   *)
(* A search for a point of the ball of radius r around z, all of whose     *)
(* cuts keep the ball, must find one before that fails: Steps(n, R, r).    *)
(* A search for the best point by distance from z, whose cuts keep all     *)
(* points at least as good as the bound, has a bound below that radius.    *)
(***************************************************************************)
EXTENDS EllSpace, Trans

Shrink(n, a) == VolSq(n, SingleParams(n, a))
\* squared volume factor that the cut case c guarantees
Guaranteed(n, c) ==
    CASE c.k = "single" -> IF RLe(RAdd(One, RMul(R(n), c.a0)), Zero) THEN One ELSE Shrink(n, c.a0)
      [] c.k = "slab" -> IF c.a0 = c.a1 THEN One ELSE VolSq(n, SlabParams(n, c.a0, c.a1))
      [] OTHER -> One

\* determinant of a positive definite matrix
Det(P) == FoldLeft(LAMBDA m, p : RMul(m, p), One, Pivots(LDL(P, NotPos)))

\* radius that may be left after k central or deeper cuts
RadiusAfter(lnR, n, k) == RExp(RSub(lnR, RDiv(R(k), R(2 * n * (n + 1)))))
LnMean(L) == RDiv(RSum([i \in 1..Len(L) |-> RLn(L[i][i])]), R(Len(L)))
LInv2(L) ==      \* squared Frobenius norm of the inverse of L
    RSum([j \in 1..Len(L) |-> LET y == FwdSolve(L, Vec(Len(L), LAMBDA i : IF i = j THEN R(1) ELSE R(0))) IN RDot(y, y)])
BallIn(e, L, z, r) == RLe(RAdd(RSqrt(Dist2(e, L, z)), RMul(r, RSqrt(LInv2(L)))), One)
==============================================================================
