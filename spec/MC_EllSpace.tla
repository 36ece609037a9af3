---------------------------- MODULE MC_EllSpace ------------------------------
(***************************************************************************)
(* All histories of up to Depth cuts, recentrings on small planar          *)
(* ellipsoids: no point of a lattice that is in the ellipsoid and          *)
(* satisfies an accepted cut is lost, a rejected cut keeps nothing and     *)
(* changes nothing, the shape stays positive definite and the volume       *)
(* follows the parameters.  Every history is written out for replay.       *)
(***************************************************************************)
EXTENDS EllSpace, Json, CSV, IOUtils
CONSTANTS Depth, Small
VARIABLES e, ops, ok
vars == <<e, ops, ok>>

Starts == IF Small THEN {1, 3} ELSE {1, 2, 3, 4}
Shape(k) == CASE k = 1 -> [ctor |-> "scalar", kappa |-> "4.0", c |-> <<"0.0", "0.0">>, m |-> <<<<"1.0", "0.0">>, <<"0.0", "1.0">>>>]
              [] k = 2 -> [ctor |-> "diag", kappa |-> "1.0", c |-> <<"1.0", "-2.0">>, m |-> <<<<"9.0", "0.0">>, <<"0.0", "1.0">>>>]
              [] k = 3 -> [ctor |-> "matrix", kappa |-> "2.0", c |-> <<"-1.0", "0.5">>, m |-> <<<<"2.0", "1.0">>, <<"1.0", "1.5">>>>]
              [] k = 4 -> [ctor |-> "cov", kappa |-> "1.0", c |-> <<"0.0", "3.0">>, m |-> <<<<"4.0", "-3.0">>, <<"-3.0", "4.0">>>>]
Grads == IF Small THEN {<<"1.0", "0.0">>, <<"1.0", "-2.0">>} ELSE {<<"1.0", "0.0">>, <<"0.0", "-1.0">>, <<"1.0", "1.0">>, <<"0.5", "-2.0">>}
\* relative depths
Bias   == {"0.0", "0.3", "0.9", "1.1"}
QDep   == {"-0.7", "-0.2", "0.4", "1.2"}
Slabs  == {<<"0.1", "0.6">>, <<"0.2", "1.5">>, <<"0.5", "0.3">>}
QSlabs == {<<"-0.3", "0.4">>, <<"-0.9", "0.8">>, <<"-0.8", "-0.2">>, <<"0.2", "0.1">>, <<"-1.7", "-1.2">>}
CSlabs == {<<"0.0", "0.5">>, <<"0.0", "1.5">>, <<"0.0", "-0.1">>}

Init == /\ \E k \in Starts : /\ e = Ball(RV(Shape(k).c), MScale(R(Shape(k).kappa), RM(Shape(k).m)))
                             /\ ops = <<[op |-> "start"] @@ Shape(k)>>
        /\ ok = TRUE

Lattice == {<<i, j>> : i \in -6..6, j \in -6..6}
\* a lattice in the coordinates of the ellipsoid, up to its boundary
Point(L, ij) == VAdd(e.c, LVec(L, <<RDiv(R(ij[1]), R(6)), RDiv(R(ij[2]), R(6))>>))
Det(P) == RSub(RMul(P[1][1], P[2][2]), RMul(P[1][2], P[2][1]))

Judge(how, par, gr, b0, b1, case, f) ==
    LET L  == TLCEval(Chol(e.P))
        in == {ij \in Lattice : ij[1] * ij[1] + ij[2] * ij[2] <= 36}
        kept == {ij \in in : Kept(e, how, par, gr, b0, b1, Point(L, ij))}
    IN CASE case.st = "NoSoln"   -> kept = {}
         [] case.st = "NoEffect" -> TRUE
         [] OTHER -> LET M == TLCEval(Chol(f.P)) IN
              /\ IsPD(f.P)
              /\ \A ij \in kept : RLe(Dist2(f, M, Point(L, ij)), R("1.000000000000000000000001"))
              /\ case.k # "enclosing" =>
                    LET p == Params(2, case) IN
                    RClose(Det(f.P), RMul(VolSq(2, p), Det(e.P)), R("1e-30"), Zero)

Cut(how, par, g, r0, r1) ==
    LET gr  == RV(g)
        t   == TLCEval(Width2(e, gr))
        tau == TLCEval(RSqrt(t))
        b0  == RMul(R(r0), tau)
        b1  == RMul(R(r1), tau)
    IN \E case \in CutCases(2, how, par, b0, b1, t, R("1e-20")) :
        LET f == TLCEval(IF case.st = "Success" THEN Apply(e, gr, t, Params(2, case)) ELSE e) IN
        /\ e' = f
        /\ ok' = Judge(how, par, gr, b0, b1, case, f)
        /\ ops' = Append(ops, [op |-> "cut", how |-> how, par |-> par, g |-> g, rel0 |-> r0] @@
                              (IF par THEN [rel1 |-> r1] ELSE <<>>))

Next == /\ Len(ops) <= Depth /\ ok
        /\ \E g \in Grads :
              \/ \E b \in Bias : Cut("bias", FALSE, g, b, b)
              \/ \E b \in QDep : Cut("q", FALSE, g, b, b)
              \/ \E s \in Slabs : Cut("bias", TRUE, g, s[1], s[2])
              \/ \E s \in QSlabs : Cut("q", TRUE, g, s[1], s[2])
              \/ \E s \in CSlabs : Cut("central", TRUE, g, s[1], s[2])
              \/ Cut("central", FALSE, g, "0.0", "0.0")
Safe == ok
View == ops
Emit == (Len(ops) = Depth + 1 /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.OUT)
==============================================================================
