------------------------------- MODULE MC_Runs -------------------------------
(***************************************************************************)
(* Runs of the optimization method on small planar problems: the rows in a *)
(* set S, all true on a ball around the origin, and an objective.  At each *)
(* iteration the first violated row (or the objective) is cut.  At every   *)
(* step the scaled ball of Runs is in the ellipsoid, the volume has        *)
(* shrunk as claimed, and when the run ends the bound is as good as        *)
(* promised.  Every problem is written out for replay.                     *)
(***************************************************************************)
EXTENDS Runs, Json, CSV, IOUtils, FiniteSets
CONSTANTS Limit, Some         \* iterations; size of the sets of rows
VARIABLES S, ob, st, par,     \* rows, objective, start, parallel cuts?
          e, gamma, k, how    \* ellipsoid, bound (a sequence of at most one), iterations, how it ended
vars == <<S, ob, st, par, e, gamma, k, how>>
Num == << [a |-> <<"1.0", "0.0">>, hi |-> "2.0", lo |-> <<"-1.0">>], [a |-> <<"0.0", "1.0">>, hi |-> "1.5", lo |-> <<>>],
          [a |-> <<"0.0", "-1.0">>, hi |-> "2.0", lo |-> <<>>], [a |-> <<"1.0", "1.0">>, hi |-> "2.0", lo |-> <<"-2.0">>],
          [a |-> <<"1.0", "-2.0">>, hi |-> "3.0", lo |-> <<>>], [a |-> <<"-3.0", "1.0">>, hi |-> "4.0", lo |-> <<>>] >>
Objs == << <<"1.0", "0.0">>, <<"1.0", "2.0">>, <<"-1.0", "0.5">> >>
Spaces == << [impl |-> "ell", ctor |-> "scalar", kappa |-> "25.0", xc |-> <<"0.5", "-0.25">>], [impl |-> "ell", ctor |-> "scalar", kappa |-> "100.0", xc |-> <<"5.0", "4.0">>] >>
Row(i) == [a |-> RV(Num[i].a), hi |-> R(Num[i].hi), lo |-> RV(Num[i].lo)]
Rows == LET ord == SetToSortSeq(S, <) IN [i \in 1..Len(ord) |-> Row(ord[i])]
Prob == [rows |-> Rows, balls |-> <<[c |-> RV(<<0, 0>>), r |-> R(3)]>>, c |-> RV(Objs[ob])]
Start == Ball(RV(Spaces[st].xc), MScale(R(Spaces[st].kappa), Eye(2)))
Tol == R("0.0001")
Z == RV(<<0, 0>>)
Rad == R("0.8")
Init == /\ S \in {T \in SUBSET (1..Len(Num)) : Cardinality(T) = Some} /\ ob \in 1..Len(Objs) /\ st \in 1..Len(Spaces) /\ par \in BOOLEAN
        /\ e = Start /\ gamma = <<>> /\ k = 0 /\ how = "running"

\* the answer of the oracle at x: [g, b0, b1 (optional), better]
RowCut(q, x) == LET v == RDot(q.a, x) IN
    IF RLt(q.hi, v) THEN <<[g |-> q.a, b0 |-> RSub(v, q.hi), b1 |-> IF par /\ Len(q.lo) = 1 THEN <<RSub(v, q.lo[1])>> ELSE <<>>, better |-> FALSE]>>
    ELSE IF Len(q.lo) = 1 /\ RLt(v, q.lo[1]) THEN <<[g |-> VScale(R(-1), q.a), b0 |-> RSub(q.lo[1], v), b1 |-> IF par THEN <<RSub(q.hi, v)>> ELSE <<>>, better |-> FALSE]>>
    ELSE <<>>
BallCut(q, x) == LET d == VSub(x, q.c)  m == RDot(d, d) IN
    IF RLt(Sq(q.r), m) THEN <<[g |-> VScale(R(2), d), b0 |-> RSub(m, Sq(q.r)), b1 |-> <<>>, better |-> FALSE]>> ELSE <<>>
Oracle(p, x) ==
    LET r == FoldLeft(LAMBDA acc, i : IF acc # <<>> THEN acc ELSE IF i <= Len(p.rows) THEN RowCut(p.rows[i], x) ELSE BallCut(p.balls[1], x),
                      <<>>, [i \in 1..Len(p.rows) + 1 |-> i]) IN
    IF r # <<>> THEN r[1]
    ELSE LET v == TLCEval(Obj(p, x))  g == VScale(R(-1), p.c) IN
         IF gamma # <<>> /\ RLt(v, gamma[1]) THEN [g |-> g, b0 |-> RSub(gamma[1], v), b1 |-> <<>>, better |-> FALSE]
         ELSE [g |-> g, b0 |-> R(0), b1 |-> <<>>, better |-> TRUE, v |-> v]
Step(cut) ==
    LET t == TLCEval(Width2(e, cut.g))
        pl == Len(cut.b1) = 1
        c == CHOOSE x \in CutCases(2, IF cut.better THEN "central" ELSE "bias", pl, cut.b0, IF pl THEN cut.b1[1] ELSE R(0), t, R(0)) : TRUE IN
    /\ gamma' = IF cut.better THEN <<cut.v>> ELSE gamma
    /\ k' = k + 1
    /\ IF c.st = "Success" THEN /\ e' = TLCEval(Apply(e, cut.g, t, Params(2, c)))
                                /\ how' = IF RLt(t, Tol) THEN "small" ELSE IF k + 1 = Limit THEN "limit" ELSE "running"
       ELSE UNCHANGED e /\ how' = "empty"
Next == how = "running" /\ Step(TLCEval(Oracle(TLCEval(Prob), e.c))) /\ UNCHANGED <<S, ob, st, par>>

\* best vertex of the feasible set among the lattice below, as x*
Cand == {<<RDiv(R(i), R(4)), RDiv(R(j), R(4))>> : i \in -8..8, j \in -8..8}
Known(p) == {x \in Cand : Feasible(p, x, R(0))}
Best(p, K) == CHOOSE x \in K : \A y \in K : RLe(Obj(p, y), Obj(p, x))
InBall(f, L, z, r) == RLe(RAdd(RSqrt(Dist2(f, L, z)), RMul(r, RSqrt(LInv2(L)))), RAdd(R(1), R("1e-20")))
Slack == R("1e-20")
Safe ==
    LET p == TLCEval(Prob)  L0 == TLCEval(Chol(Start.P))  L == TLCEval(Chol(e.P)) IN
    /\ BallFeasible(p, Z, Rad) /\ BallIn(Start, L0, Z, Rad)
    /\ RLe(LnMean(L), RAdd(Slack, RSub(LnMean(L0), RDiv(R(IF how = "empty" THEN k - 1 ELSE k), R(12)))))
    /\ LET xs == TLCEval(Best(p, Known(p))) IN
       /\ PointIn(Start, L0, xs)
       /\ \A x \in Known(p) : (gamma = <<>> \/ RLe(gamma[1], Obj(p, x))) /\ PointIn(Start, L0, x) => RLe(Dist2(e, L, x), RAdd(R(1), Slack))
       /\ how # "running" =>
            /\ gamma # <<>>
            /\ GoodBound(p, Z, Rad, xs, gamma[1], Left(L0, 2, Tol, Shortest(p), k, how = "limit"))
Emit == (how # "running" /\ "OUT" \in DOMAIN IOEnv) =>
        CSVWrite("%1$s", <<ToJson([rows |-> [i \in 1..Len(SetToSortSeq(S, <)) |-> Num[SetToSortSeq(S, <)[i]]], c |-> Objs[ob], par |-> par, space |-> Spaces[st], k |-> k])>>, IOEnv.OUT)
View == <<S, ob, st, par, k, how>>
==============================================================================
