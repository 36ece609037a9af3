--------------------------------- MODULE LMI ---------------------------------
(***************************************************************************)
(* Linear matrix inequality oracles.  The oracle has no state a user may   *)
(* observe: its answer at x is a function of the matrix M(x), either       *)
(*    B - sum x_k F_k   (general form)  or   sum x_k F_k   (B absent).     *)
(* Feasible means M(x) positive definite.  Otherwise the smallest leading  *)
(* block that is not positive definite has a vector v with last entry one  *)
(* and v'M(x)v = its last pivot <= 0; since v'M(.)v is affine and positive *)
(* at every feasible point, it is a cut through or beyond x.               *)
(***************************************************************************)
EXTENDS LDLT

\* general is TRUE for the form with B
MAt(F, B, general, x) ==
    IF general THEN Mat(Len(B), Len(B), LAMBDA i, j : RSub(B[i][j], RSum([k \in 1..Len(x) |-> RMul(F[k][i][j], x[k])])))
    ELSE Mat(Len(F[1]), Len(F[1]), LAMBDA i, j : RSum([k \in 1..Len(x) |-> RMul(F[k][i][j], x[k])]))
\* magnitude of the terms of the diagonal
DiagScale(F, B, general, x) ==
    Vec(Len(F[1]), LAMBDA i : RAdd(IF general THEN RAbs(B[i][i]) ELSE R(0), RSum([k \in 1..Len(x) |-> RAbs(RMul(F[k][i][i], x[k]))])))

\* magnitude of the terms of every entry, and of what enters the i-th pivot of an elimination with rows W
AbsAt(F, B, general, x) ==
    Mat(Len(F[1]), Len(F[1]), LAMBDA i, j : RAdd(IF general THEN RAbs(B[i][j]) ELSE R(0), RSum([k \in 1..Len(x) |-> RAbs(RMul(F[k][i][j], x[k]))])))
PivotScale(W, A) ==
    FoldLeft(LAMBDA s, i :
        LET m == TLCEval([j \in 1..i - 1 |-> RAbs(RDiv(W[i][j], W[j][j]))]) IN
        Append(s, RAdd(A[i][i], RSum([j \in 1..i - 1 |-> RMul(m[j], RAdd(RMul(R(2), A[i][j]), RMul(m[j], s[j])))]))),
        <<>>, [i \in 1..Len(W) |-> i])

\* L'v = last unit vector, for the rows W of an LDL' factorization
WitnessOf(W) ==
    LET p == Len(W) IN
    Reverse(FoldLeft(LAMBDA r, t :     \* r holds v[p], v[p-1], ..., newest last
        LET i == p - t IN
        Append(r, RNeg(RSum([u \in 1..t |-> RMul(RDiv(W[p - u + 1][i], W[i][i]), r[u])]))),
        <<R(1)>>, [t \in 1..p - 1 |-> t]))

QuadW(A, v) == RSum([i \in 1..Len(v) |-> RMul(v[i], RSum([j \in 1..Len(v) |-> RMul(A[i][j], v[j])]))])
QuadWAbs(A, v) == RSum([i \in 1..Len(v) |-> RMul(RAbs(v[i]), RSum([j \in 1..Len(v) |-> RMul(RAbs(A[i][j]), RAbs(v[j]))]))])

\* magnitude of what enters the entries of the elimination, and from there the witness
ElimScale(W, A) ==
    FoldLeft(LAMBDA Es, u :
        Append(Es, FoldLeft(LAMBDA row, i :
            Append(row, RAdd(A[u][i], RSum([k \in 1..i - 1 |-> RDiv(RMul(row[k], Es[i][k]), RAbs(W[k][k]))]))),
            <<>>, [i \in 1..u - 1 |-> i])),
        <<>>, [u \in 1..Len(W) |-> u])
WitScale(W, Es) ==
    LET p == Len(W) IN
    Reverse(FoldLeft(LAMBDA r, t :
        LET i == p - t IN
        Append(r, RSum([u \in 1..t |-> RMul(RDiv(Es[p - u + 1][i], RAbs(W[i][i])), r[u])])),
        <<R(1)>>, [t \in 1..p - 1 |-> t]))

\* The answer at x: [kind |-> "feas"], [kind |-> "cut", g, b0, ...] or [kind |-> "tie"]
Cut(F, general, W, A) ==
    LET v == TLCEval(WitnessOf(W))  vs == TLCEval(WitScale(W, TLCEval(ElimScale(W, A)))) IN
    [kind |-> "cut", v |-> v,
     g  |-> Vec(Len(F), LAMBDA k : IF general THEN QuadW(F[k], v) ELSE RNeg(QuadW(F[k], v))),
     gs |-> Vec(Len(F), LAMBDA k : RAdd(QuadWAbs(F[k], v), RMul(R("0.01"), QuadWAbs(F[k], vs)))),   \* for tolerances
     b0 |-> RNeg(W[Len(W)][Len(W)]),
     bs |-> RAdd(QuadWAbs(A, v), ElimNoise(A, 0, Len(W), v, W[Len(W)][Len(W)]))]
\* how precisely the witness can be known: rounding, amplified by the smallest relative pivot before the last
Slack(W, S) ==
    LET m == FoldLeft(LAMBDA t, i : RMin(t, RDiv(RAbs(W[i][i]), S[i])), R(1), [i \in 1..Len(W) - 1 |-> i])
    IN IF RLt(RMul(m, m), R("1e-6")) THEN R("1e-6") ELSE RDiv(R("1e-12"), RMul(m, m))
Answer(F, B, general, x, exact) ==
    LET M == TLCEval(MAt(F, B, general, x))
        A == TLCEval(AbsAt(F, B, general, x))
        zero == RMul(R("1e-30"), MaxAbs([i \in 1..Len(A) |-> A[i][i]]))
        W == TLCEval(LDL(M, LAMBDA p : ~RLt(zero, p)))
        S == TLCEval(PivotScale(W, A))
        k == Len(W)
        weak == IF exact THEN FALSE ELSE \E i \in 1..k : RLe(RAbs(W[i][i]), RMul(R("1e-7"), S[i]))
    IN IF weak THEN [kind |-> "tie"]
       ELSE IF RLt(zero, W[k][k]) THEN [kind |-> "feas"]
       ELSE Cut(F, general, W, A) @@ [tol |-> IF exact THEN R("1e-12") ELSE Slack(W, S)]
Lhs(g, b0, x, z) == RAdd(RDot(g, VSub(z, x)), b0)     \* the cut keeps z iff this is <= 0
==============================================================================
