-------------------------------- MODULE T_Runs -------------------------------
(***************************************************************************)
(* Validates the results of complete runs against Runs.  A history comes   *)
(* with certificates (a ball `z`, `r` and points `zs`), which count only   *)
(* if they check out here.                                                 *)
(***************************************************************************)
EXTENDS Runs, Json, IOUtils
LM == INSTANCE LMI
PR == INSTANCE Profit
QC == INSTANCE Quasi
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, bad
vars == <<h, bad>>

Space(s) == Ball(RV(s.xc), CASE s.ctor = "scalar" -> MScale(R(s.kappa), Eye(Len(s.xc)))
                             [] s.ctor = "diag" -> Diag(RV(s.diag))
                             [] s.ctor = "matrix" -> MScale(R(s.kappa), RM(s.mat)))
Opt(r, k) == IF k \in DOMAIN r THEN <<R(r[k])>> ELSE <<>>
Poly(q) == [rows |-> Vec(Len(q.rows), LAMBDA i : [a |-> RV(q.rows[i].a), hi |-> R(q.rows[i].hi), lo |-> Opt(q.rows[i], "lo")]),
            balls |-> Vec(Len(q.balls), LAMBDA i : [c |-> RV(q.balls[i].c), r |-> R(q.balls[i].r)]),
            c |-> IF "c" \in DOMAIN q THEN RV(q.c) ELSE <<>>]
If(cond, text) == IF cond THEN {text} ELSE {}
Rounding == R("1e-9")
Cuts(hh, o) == o.iters

\* --- polyhedra and balls ----------------------------------------------------
PolyFeas(hh, o, p, e, L) ==
    LET n == Len(e.c)  r == R(hh.r)  z == RV(hh.z)
        cert == r # R(0) /\ BallFeasible(p, z, r) /\ BallIn(e, L, z, r)
        left == Left(L, n, R(hh.tol), Shortest(p), Cuts(hh, o), o.iters = hh.max) IN
    If(o.found /\ ~Feasible(p, RV(o.x), Rounding), "infeasible point returned")
    \cup If(~o.found /\ cert /\ RLt(RMul(left, R("1.000001")), r), "feasible problem reported as infeasible")

PolyOptim(hh, o, p, e, L) ==
    LET n == Len(e.c)  r == R(hh.r)  z == RV(hh.z)
        g0 == R(hh.gamma0)  gamma == R(o.gamma)
        left == TLCEval(Left(L, n, R(hh.tol), Shortest(p), Cuts(hh, o), o.iters = hh.max))
        cert == r # R(0) /\ BallFeasible(p, z, r) /\ BallIn(e, L, z, r)
        better == RLe(g0, RSub(Obj(p, z), RMul(r, Norm2(p.c)))) IN
    IF o.found
    THEN If(~Feasible(p, RV(o.x), Rounding), "infeasible point returned")
         \cup If(~RClose(gamma, Obj(p, RV(o.x)), Rounding, RMul(Norm2(p.c), Norm2(RV(o.x)))), "bound is not the value of the point")
         \cup If(RLt(gamma, g0), "bound became worse")
         \cup If(cert /\ \E i \in 1..Len(hh.zs) : LET xs == RV(hh.zs[i]) IN
                            Feasible(p, xs, R(0)) /\ PointIn(e, L, xs) /\ ~GoodBound(p, z, r, xs, gamma, left), "a better point was missed")
    ELSE If(cert /\ better /\ RLt(RMul(left, R("1.000001")), r), "feasible problem reported as infeasible")
         \cup If(gamma # g0, "bound changed without a point")

Integral(x) == \A i \in 1..Len(x) : RLt(R(1000000000), RAbs(x[i])) \/ RLe(RAbs(RSub(x[i], R(RFloor(RAdd(x[i], R("0.5")))))), RMul(R("1e-12"), RAdd(R(1), RAbs(x[i]))))
PolyOptimQ(hh, o, p, e, L) ==
    IF o.found
    THEN If(~Integral(RV(o.x)), "not a lattice point")
         \cup If(~Feasible(p, RV(o.x), Rounding), "infeasible point returned")
         \cup If(~RClose(R(o.gamma), Obj(p, RV(o.x)), Rounding, RMul(Norm2(p.c), Norm2(RV(o.x)))), "bound is not the value of the point")
         \cup If(RLt(R(o.gamma), R(hh.gamma0)), "bound became worse")
    ELSE If(R(o.gamma) # R(hh.gamma0), "bound changed without a point")

\* probe t asks for a feasible point with c x >= -t; the initial ellipsoid may be recentred anywhere in the feasible set
PolySearch(hh, o, p, e, L) ==
    LET n == Len(e.c)  r == R(hh.r)  z == RV(hh.z)
        lo == R(o.lo)  hi == R(o.hi)  lo0 == R(hh.interval[1])  hi0 == R(hh.interval[2])
        left == TLCEval(Left(L, n, R(hh.tol), Shortest(p), hh.max, TRUE))      \* no probe leaves more
        left2 == TLCEval(RMax(left, Left(L, n, R(hh.tol), Shortest(p), 0, FALSE)))
        pts == [i \in 1..Len(hh.zs) |-> RV(hh.zs[i])]
        in(c, x) == PointIn(Ball(c, e.P), L, x)
        \* z and the points are in the ellipsoid wherever it can be centred: the feasible set is in the ball |x| <= hh.size
        small == BallIn(Ball(e.c, e.P), L, z, r) /\ Len(p.balls) >= 1
                 /\ RLe(RMul(RMul(R(2), p.balls[1].r), RSqrt(LInv2(L))), R(1))
        cert == r # R(0) /\ BallFeasible(p, z, r) /\ small IN
    If(~RLe(lo0, lo) \/ ~RLe(hi, hi0) \/ ~RLe(lo, hi), "interval left the initial one")
    \cup If(o.found /\ ~(Feasible(p, RV(o.x), Rounding) /\ RLe(RSub(RNeg(hi), RMul(Rounding, RAdd(R(1), RAbs(hi)))), Obj(p, RV(o.x)))), "upper end without a feasible point")
    \cup If(o.iters < hh.bmax /\ ~RLe(RSub(hi, lo), RMul(R("2.000001"), R(hh.btol))), "stopped with a wide interval")
    \cup If(cert /\ \E i \in 1..Len(pts) :
                LET xs == pts[i] IN
                Feasible(p, xs, R(0)) /\ PointIn(e, L, xs) /\ RLt(lo0, lo) /\ ~GoodBound(p, z, r, xs, RNeg(lo), left2), "a feasible probe was reported infeasible")

\* --- matrix inequalities ----------------------------------------------------
Wholly(F, B, gen, z, r) ==     \* M is positive definite on the ball around z
    LET M == LM!MAt(F, B, gen, z)
        m == RMul(r, RSqrt(RSum([k \in 1..Len(F) |-> RSum([i \in 1..Len(F[k]) |-> RDot(F[k][i], F[k][i])])]))) IN
    IsPD(Mat(Len(M), Len(M), LAMBDA i, j : IF i = j THEN RSub(M[i][j], m) ELSE M[i][j]))
Nearly(F, B, gen, x) ==
    LET M == LM!MAt(F, B, gen, x)  s == LM!DiagScale(F, B, gen, x) IN
    IsPD(Mat(Len(M), Len(M), LAMBDA i, j : IF i = j THEN RAdd(M[i][j], RMul(R("1e-7"), RAdd(R("1e-3"), MaxAbs(s)))) ELSE M[i][j]))
Lmi(hh, o, e, L) ==
    LET q == hh.prob  gen == q.type # "lmi0"
        F == TLCEval(Vec(Len(q.f), LAMBDA k : RM(q.f[k])))
        B == IF gen THEN TLCEval(RM(q.b)) ELSE <<>>
        n == Len(e.c)  r == R(hh.r)  z == RV(hh.z)
        \* a cut v'M(.)v <= 0 at x has |g| >= margin / |x - z|; centres stay within a hundred times the initial size
        fn == TLCEval(RSqrt(RSum([k \in 1..Len(F) |-> RSum([i \in 1..Len(F[k]) |-> RDot(F[k][i], F[k][i])])])))
        far == RAdd(Norm2(VSub(e.c, z)), RMul(R(100), RSqrt(RSum([i \in 1..n |-> e.P[i][i]]))))
        short == RMin(IF hh.driver = "optim" THEN Norm2(RV(q.c)) ELSE R("1e300"), RDiv(RMul(r, fn), far))
        left == TLCEval(Left(L, n, R(hh.tol), short, Cuts(hh, o), o.iters = hh.max))
        cert == r # R(0) /\ Wholly(F, B, gen, z, r) /\ BallIn(e, L, z, r)
        pc == [c |-> IF "c" \in DOMAIN q THEN VScale(R(-1), RV(q.c)) ELSE <<>>] IN
    If(o.found /\ ~Nearly(F, B, gen, RV(o.x)), "infeasible point returned")
    \cup (IF hh.driver = "feas"
          THEN If(~o.found /\ cert /\ RLt(RMul(left, R("1.000001")), r), "feasible problem reported as infeasible")
          ELSE If(o.found /\ ~RClose(R(o.gamma), Obj(pc, RV(o.x)), Rounding, RMul(Norm2(pc.c), Norm2(RV(o.x)))), "bound is not the value of the point")
               \cup If(~o.found /\ cert /\ RLt(RMul(left, R("1.000001")), r) /\ RLe(R(hh.gamma0), RSub(Obj(pc, z), RMul(r, Norm2(pc.c)))), "feasible problem reported as infeasible")
               \cup If(o.found /\ cert /\ \E i \in 1..Len(hh.zs) : LET xs == RV(hh.zs[i]) IN
                          IsPD(LM!MAt(F, B, gen, xs)) /\ PointIn(e, L, xs) /\ ~GoodBound(pc, z, r, xs, R(o.gamma), left), "a better point was missed"))

\* --- the examples -----------------------------------------------------------
\* profit with an instance that may depend on the point
Inst(hh, y) == LET q == hh.prob IN
    IF q.type = "profitrb" THEN PR!Robust(RV(q.params), RV(q.el), RV(q.price), RV(q.unc), y) ELSE PR!Instance(RV(q.params), RV(q.el), RV(q.price))
Profits(hh, o, e, L) ==
    LET q == hh.prob
        val(y) == LET I == TLCEval(Inst(hh, y)) IN PR!Eval(I, y)
        gamma == R(o.gamma) IN
    IF ~o.found THEN If(gamma # R(hh.gamma0), "bound changed without a point")
         \cup If(q.type # "profitq" /\ \E i \in 1..Len(hh.zs) : LET v == val(RV(hh.zs[i])) IN
                   PointIn(e, L, RV(hh.zs[i])) /\ RLt(v.f0, R("-0.01")) /\ RLt(RAdd(R(hh.gamma0), RMul(R("0.05"), v.cobb)), PR!ProfitAt(v)), "profitable problem reported as infeasible")
    ELSE LET v == TLCEval(val(RV(o.x))) IN
         If(~RLe(v.f0, R("1e-9")), "infeasible point returned")
         \cup If(~RLe(RAbs(RSub(gamma, PR!ProfitAt(v))), RMul(R("1e-9"), v.cobb)), "bound is not the value of the point")
         \cup If(q.type = "profitq" /\ ~Integral(Vec(2, LAMBDA i : RExp(RV(o.x)[i]))), "not a lattice point")
         \cup If(q.type # "profitq" /\ o.iters < hh.max /\ \E i \in 1..Len(hh.zs) :
                LET w == TLCEval(val(RV(hh.zs[i]))) IN
                PointIn(e, L, RV(hh.zs[i])) /\ RLe(w.f0, R(0)) /\ RLt(RAdd(gamma, RMul(R("1e-6"), w.cobb)), PR!ProfitAt(w)), "a better point was missed")
Quasis(hh, o, e, L) ==
    LET gamma == R(o.gamma) IN
    IF ~o.found THEN If(gamma # R(hh.gamma0), "bound changed without a point")
         \cup If(\E i \in 1..Len(hh.zs) : LET x == RV(hh.zs[i]) IN
                   PointIn(e, L, x) /\ RLt(RAdd(Sq(x[1]), R("0.01")), x[2]) /\ RLt(RAdd(R(hh.gamma0), R("0.05")), QC!Ratio(x)), "feasible problem reported as infeasible")
    ELSE LET x == RV(o.x) IN
         If(~RLe(Sq(x[1]), RAdd(x[2], R("1e-9"))), "infeasible point returned")
         \cup If(~RLe(RAbs(RSub(gamma, QC!Ratio(x))), R("1e-9")), "bound is not the value of the point")
         \cup If(o.iters < hh.max /\ \E i \in 1..Len(hh.zs) : LET y == RV(hh.zs[i]) IN
                PointIn(e, L, y) /\ RLe(Sq(y[1]), y[2]) /\ RLt(RAdd(gamma, R("1e-6")), QC!Ratio(y)), "a better point was missed")

Verdict(hh, o, e, L) ==
    LET t == hh.prob.type IN
    If(o.iters < 0 \/ ("bmax" \notin DOMAIN hh /\ o.iters > hh.max), "more iterations than allowed")
    \cup (CASE t = "poly" -> LET p == TLCEval(Poly(hh.prob)) IN
               (CASE hh.driver = "feas" -> PolyFeas(hh, o, p, e, L)
                  [] hh.driver = "optim" -> PolyOptim(hh, o, p, e, L)
                  [] hh.driver = "optimq" -> PolyOptimQ(hh, o, p, e, L)
                  [] hh.driver = "bsearch" -> PolySearch(hh, o, p, e, L))
            [] t \in {"lmi", "lmiold", "lmi0"} -> Lmi(hh, o, e, L)
            [] t \in {"profit", "profitrb", "profitq"} -> Profits(hh, o, e, L)
            [] t = "quasi" -> Quasis(hh, o, e, L))
Faults(hh) ==
    IF "panic" \in DOMAIN hh \/ "panic" \in DOMAIN hh.out THEN {"panic"}
    ELSE LET e == TLCEval(Space(hh.space)) IN Verdict(hh, hh.out, e, TLCEval(Chol(e.P)))
Init == h \in 1..Len(Hist) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Faults(Hist[h]) /\ UNCHANGED h
Good == bad = {"?"} \/ bad = {}
==============================================================================
