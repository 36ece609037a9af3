----------------------------- MODULE T_Progress ------------------------------
(***************************************************************************)
(* Validates recorded cut histories of the search spaces (log) and results *)
(* of pursuits (out) against Progress.                                     *)
(***************************************************************************)
EXTENDS Progress, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>

Proj(o) == Ball(RV(o.c), MScale(R(o.kappa), RM(o.m)))
Hw(e, i) == RSqrt(e.P[i][i])
Finite(e) == AllReal(e.c) /\ \A i \in 1..Len(e.P) : AllReal(e.P[i])
\* the pivots of the correlation matrix
Corr(e) == LET n == Len(e.c) IN Pivots(LDL(Mat(n, n, LAMBDA i, j : RDiv(e.P[i][j], RMul(Hw(e, i), Hw(e, j)))), NotPos))
Health(e) == LET w == Corr(e) IN IF Len(w) < Len(e.c) THEN Zero ELSE FoldLeft(LAMBDA m, p : RMin(m, p), One, w)
Acc(impl) == IF impl = "stable" THEN R("1e-8") ELSE R("1e-11")

CutFaults(ev, impl, pre, post, t, st) ==
    IF st = "panic" THEN {"panic"} ELSE IF st # "Success" THEN {} ELSE
    IF ~Finite(pre) \/ ~RLt(R("1e-4"), Health(pre)) THEN {} ELSE
    IF ~Finite(post) THEN {"not finite"} ELSE
    LET n == Len(pre.c)
        par == ev.par /\ "b1" \in DOMAIN ev
        cases == TLCEval(CutCases(n, ev.how, par, R(ev.b0), IF par THEN R(ev.b1) ELSE Zero, t, R("1e-13")))
        mine == {c \in cases : c.st = st /\ c.k # "enclosing"}
        hp == Health(post)
        slack == RAdd(One, RMul(R(20 * n), RDiv(Acc(impl), RMax(hp, R("1e-4")))))
        ratio == RDiv(Det(post.P), Det(pre.P)) IN
    IF mine = {} THEN {}        \* not this property's matter
    ELSE IF ~RLt(Zero, hp) THEN {"no longer an ellipsoid"}
    ELSE IF \E c \in mine : RLe(ratio, RMul(slack, Guaranteed(n, c))) THEN {} ELSE {"volume"}

ImplOf(hh, k) == hh.impl[k]
LogFaults(hh, i) ==
    LET ev == hh.log[i] IN
    IF ev.op # "cut" THEN {} ELSE
    UNION {LET k == ev.on[j] + 1 IN
           CutFaults(ev, ImplOf(hh, k), TLCEval(Proj(hh.log[i - 1].objs[k])), TLCEval(Proj(ev.objs[k])), R(ev.objs[k].tsq), ev.st[j])
           : j \in 1..Len(ev.on)}

\* --- pursuits ---------------------------------------------------------------
If(cond, text) == IF cond THEN {text} ELSE {}
Space(s) == Ball(RV(s.xc), CASE s.ctor = "scalar" -> MScale(R(s.kappa), Eye(Len(s.xc)))
                             [] s.ctor = "diag" -> Diag(RV(s.diag))
                             [] s.ctor = "matrix" -> MScale(R(s.kappa), RM(s.mat)))
Spare == R("1.001")
PursuitFaults(hh, o) ==
    IF "panic" \in DOMAIN o THEN {"panic"} ELSE
    LET e == TLCEval(Space(hh.space))  L == TLCEval(Chol(e.P))  n == Len(e.c)
        z == RV(hh.prob.z)  r == R(hh.prob.r)
        \* a run that ended before its limit was stopped by the tolerance
        left == TLCEval(IF o.iters = hh.max THEN RadiusAfter(LnMean(L), n, o.iters)
                        ELSE RDiv(RSqrt(R(hh.tol)), R(hh.prob.unit)))
        dust == RMul(R("1e-12"), RAdd(Norm2(z), Norm2(e.c)))     \* where coordinates end
        d == IF o.found THEN Norm2(VSub(RV(o.x), z)) ELSE R("1e300") IN
    IF ~BallIn(e, L, z, r) THEN {} ELSE
    If(o.iters < 0 \/ o.iters > hh.max, "more iterations than allowed")
    \cup (IF hh.driver = "feas"
          THEN If(o.found /\ ~RLe(d, RMul(r, R("1.000001"))), "not the point asked for")
               \cup If(~o.found /\ RLt(RMul(left, Spare), r), "not found within the guaranteed steps")
          ELSE LET best == RNeg(R(o.gamma)) IN
               If(RLt(RMul(r, R("1.000001")), best), "bound became worse")
               \cup If(o.found /\ ~RLe(RAbs(RSub(d, best)), RAdd(RMul(R("1e-6"), best), dust)), "bound is not the value of the point")
               \cup If(RLt(RAdd(RMul(left, Spare), dust), best), "bound not within the guaranteed radius"))

Steps(hh) == IF "log" \in DOMAIN hh THEN Len(hh.log) ELSE 1
Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Steps(Hist[h])
        /\ bad' = (IF "log" \in DOMAIN Hist[h] THEN LogFaults(Hist[h], l + 1) ELSE PursuitFaults(Hist[h], Hist[h].out))
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
