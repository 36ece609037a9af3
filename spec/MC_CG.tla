-------------------------------- MODULE MC_CG --------------------------------
(***************************************************************************)
(* All systems of order N with a symmetric matrix of small integers, right *)
(* hand side and starting point.  For positive definite matrices: the      *)
(* residuals are orthogonal and the directions conjugate, the error        *)
(* decreases in energy, and N steps solve the system.                      *)
(***************************************************************************)
EXTENDS ConjGrad, Json, CSV, IOUtils, FiniteSets
CONSTANTS N, Neg, Hi, B
VARIABLES a, b, x0, done
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i >= j}
IA == [i \in 1..N |-> [j \in 1..N |-> IF i >= j THEN a[<<i, j>>] ELSE a[<<j, i>>]]]
Init == /\ a \in [Pairs -> -Neg..Hi] /\ b \in [1..N -> -B..B] /\ x0 \in {[i \in 1..N |-> 0], [i \in 1..N |-> i], [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b, x0>>
Small(v) == RLe(RAbs(v), R("1e-30"))
Run(A, bb, s0) == FoldLeft(LAMBDA q, k : IF Small(q[Len(q)].rr) \/ q[Len(q)].stuck THEN q ELSE Append(q, TLCEval(CgStep(A, q[Len(q)]))),
                        <<s0>>, [k \in 1..N + 1 |-> k])
Holds(A, bb, q) ==
    LET m == Len(q) IN
    /\ IsPD(A) => /\ m <= N + 1 /\ Small(q[m].rr) /\ ~q[m].stuck
                  /\ \A i, j \in 1..m : i < j => Small(RDot(q[i].r, q[j].r)) /\ Small(RDot(q[i].p, MatVec(A, q[j].p)))
                  /\ \A i \in 1..m - 1 :      \* energy error to the solution q[m].x
                        LET e(k) == VSub(q[k].x, q[m].x) IN RLt(Quad(A, e(i + 1)), Quad(A, e(i)))
                  /\ \A i \in 1..m : Small(RSub(Residual(A, bb, q[i].x), RSqrt(q[i].rr)))
Inv == done => LET A == TLCEval(RM(IA))  bb == TLCEval(RV(b)) IN
               LET q == TLCEval(Run(A, bb, TLCEval(CgInit(A, bb, RV(x0))))) IN Holds(A, bb, q)
Emit == (done /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([a |-> IA, b |-> b, x0 |-> x0])>>, IOEnv.OUT)
==============================================================================
