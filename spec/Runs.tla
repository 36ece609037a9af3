-------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* What complete runs of the drivers guarantee on convex problems.         *)
(*                                                                         *)
(* A problem has rows  lo <= a x <= hi  (lo optional: a sequence of length *)
(* 0 or 1), balls |x - c| <= r, and an objective c x to be maximised.      *)
(*                                                                         *)
(* Every cut keeps the feasible points that are at least as good as the    *)
(* bound, and the ellipsoid encloses what was kept.  So if the ball of     *)
(* radius r around z is feasible and inside the initial ellipsoid, and y   *)
(* is another such point, the ellipsoid always contains the ball of radius *)
(* w r around y  + w (z - y ), as long as w is large enough for all of it  *)
(* to be as good as the bound gamma:                                       *)
(*        c y - w (c y - c z + r |c|) >= gamma.                          *)
(* A run that stops because the half-width along its last gradient g is    *)
(* below sqrt(tol) then has  w r |g| <= sqrt(tol); one that stops because  *)
(* nothing is left has w <= 0; one that ran out of its k iterations has    *)
(* w r <= R exp(-k / (2 n (n+1))), R the mean half-axis at the beginning,  *)
(* because a cut through the centre or deeper shrinks the volume by        *)
(* exp(-1 / (2 (n+1))).                                                    *)
(***************************************************************************)
EXTENDS EllSpace, Trans

\* --- the problem -----------------------------------------------------------
Sat(v, bound, s, tol) == RLe(v, RAdd(bound, RMul(tol, s)))
Feasible(p, x, tol) ==
    /\ \A i \in 1..Len(p.rows) :
          LET q == p.rows[i]  v == RDot(q.a, x)  s == RMul(Norm2(q.a), RAdd(R(1), Norm2(x))) IN
          /\ Sat(v, q.hi, RAdd(s, RAbs(q.hi)), tol)
          /\ \A k \in 1..Len(q.lo) : Sat(RNeg(v), RNeg(q.lo[k]), RAdd(s, RAbs(q.lo[k])), tol)
    /\ \A i \in 1..Len(p.balls) :
          LET q == p.balls[i] IN Sat(Norm2(VSub(x, q.c)), q.r, RAdd(q.r, RAdd(Norm2(x), Norm2(q.c))), tol)
\* the ball around z is feasible
BallFeasible(p, z, r) ==
    /\ \A i \in 1..Len(p.rows) :
          LET q == p.rows[i]  v == RDot(q.a, z)  m == RMul(r, Norm2(q.a)) IN
          RLe(RAdd(v, m), q.hi) /\ \A k \in 1..Len(q.lo) : RLe(q.lo[k], RSub(v, m))
    /\ \A i \in 1..Len(p.balls) : RLe(RAdd(Norm2(VSub(z, p.balls[i].c)), r), p.balls[i].r)
\* a lower bound for the length of a gradient
Shortest(p) ==
    FoldLeft(LAMBDA m, v : RMin(m, v), R("1e300"),
             [i \in 1..Len(p.rows) |-> Norm2(p.rows[i].a)] \o [i \in 1..Len(p.balls) |-> RMul(R(2), p.balls[i].r)]
             \o (IF p.c = <<>> THEN <<>> ELSE <<Norm2(p.c)>>))
Obj(p, x) == RDot(p.c, x)

\* --- the initial ellipsoid, L its Cholesky factor ---------------------------
LInv2(L) ==      \* squared Frobenius norm of the inverse of L
    RSum([j \in 1..Len(L) |-> LET y == FwdSolve(L, Vec(Len(L), LAMBDA i : IF i = j THEN R(1) ELSE R(0))) IN RDot(y, y)])
PointIn(e, L, x) == RLe(Dist2(e, L, x), R(1))
BallIn(e, L, z, r) == RLe(RAdd(RSqrt(Dist2(e, L, z)), RMul(r, RSqrt(LInv2(L)))), R(1))
\* logarithm of the mean half-axis
LnMean(L) == RDiv(RSum([i \in 1..Len(L) |-> RLn(L[i][i])]), R(Len(L)))

\* --- guarantees -------------------------------------------------------------
\* the largest radius that can be left; out: how the run ended
Left(L, n, tol, shortest, cuts, limited) ==
    IF limited THEN RExp(RSub(LnMean(L), RDiv(R(cuts), R(2 * n * (n + 1)))))
    ELSE IF tol = R(0) THEN R(0) ELSE RDiv(RSqrt(tol), shortest)
\* the bound gamma is as good as xs up to what may be left
GoodBound(p, z, r, xs, gamma, left) ==
    LET D == RAdd(RSub(Obj(p, xs), Obj(p, z)), RMul(r, Norm2(p.c))) IN
    RLe(RMul(RSub(Obj(p, xs), gamma), r), RAdd(RMul(D, left), RMul(R("1e-9"), RMul(r, RAdd(RAbs(D), RAdd(RAbs(gamma), RAbs(Obj(p, xs))))))))
==============================================================================
