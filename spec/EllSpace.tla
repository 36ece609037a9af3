------------------------------ MODULE EllSpace -------------------------------
(***************************************************************************)
(* An ellipsoidal search space {x : (x-c)' P^-1 (x-c) <= 1} and what a cut *)
(* (gradient g, depth b0 and perhaps b1) does to it: the points with       *)
(* g.(x-c) + b0 <= 0 (and g.(x-c) + b1 >= 0) are kept.                     *)
(***************************************************************************)
EXTENDS CutCalc

Ball(c, P) == [c |-> c, P |-> P]

\* squared half-width along g
Width2(e, g) == Quad(e.P, g)

\* the ellipsoid with the parameters of case k, for the squared half-width t
Apply(e, g, t, p) ==
    LET pg == MatVec(e.P, g)
        k  == RDiv(p.s, t) IN
    [c |-> Axpy(RNeg(RDiv(p.r, RSqrt(t))), pg, e.c),
     P |-> Mat(Len(g), Len(g), LAMBDA i, j :
               RMul(p.d, RSub(e.P[i][j], RMul(k, RMul(pg[i], pg[j])))))]

\* The cases allowed for a cut, when the half-width is known to the relative accuracy band
CutCases(n, how, par, b0, b1, t, band) ==
    LET tau == TLCEval(RSqrt(t)) IN
    Answers(n, how, par, RDiv(b0, tau), IF par THEN RDiv(b1, tau) ELSE Zero, TRUE, band)

\* is x in the ellipsoid (L: Cholesky factor of e.P)
Dist2(e, L, x) == LET y == FwdSolve(L, VSub(x, e.c)) IN RDot(y, y)
Kept(e, how, par, g, b0, b1, x) ==
    LET u == RDot(g, VSub(x, e.c)) IN
    /\ RLe(RAdd(u, IF how = "central" THEN Zero ELSE b0), Zero)
    /\ par => RLe(Zero, RAdd(u, b1))

(***************************************************************************)
(* The points of the kept part that are hardest to keep: where the planes  *)
(* meet the boundary of the ellipsoid, in direction z across the gradient, *)
(* and the pole.  L is the Cholesky factor of e.P, a the relative depth.   *)
(***************************************************************************)
RimPoint(e, L, g, a, z) ==
    LET lg == LtVec(L, g)                      \* the gradient seen from the unit ball
        nn == Norm2(lg)
        gu == VScale(RDiv(One, nn), lg)
        zp == Axpy(RNeg(RDot(gu, z)), gu, z)
        zn == VScale(RDiv(One, Norm2(zp)), zp)
        y  == Axpy(RNeg(a), gu, VScale(RSqrt(RMax(Zero, RSub(One, Sq(a)))), zn))
    IN VAdd(e.c, LVec(L, y))
==============================================================================
