-------------------------------- MODULE LDLT ---------------------------------
(***************************************************************************)
(* The factorization manager: an object that factorizes symmetric matrices *)
(* and, after a failure, proves it with a witness vector.                  *)
(*                                                                         *)
(* Its state is what the last factorization decided.  In plain mode that   *)
(* is the smallest leading block that is not positive definite.  In        *)
(* semidefinite-tolerant mode a zero pivot is tolerated by starting a new  *)
(* window behind it, so a failure is the block (s, p] of the window with a *)
(* negative pivot.                                                         *)
(***************************************************************************)
EXTENDS Lin

Block(A, s, p) == Mat(p - s, p - s, LAMBDA i, j : A[s + i][s + j])

Sign(x, eps) == IF RLe(RAbs(x), eps) THEN 0 ELSE IF RLt(R(0), x) THEN 1 ELSE -1

\* no ties for exact data, else rounding relative to the diagonal
Eps(exact, A, i) == IF exact THEN R("-1") ELSE RMul(R("1e-7"), RAbs(A[i][i]))

\* The verdict does not depend on units: every coordinate is first measured by its diagonal
\* entry (or, when that vanishes, by its largest coupling), a congruence that keeps the signs of all pivots.
Unit0(A, i) == RSqrt(RAbs(A[i][i]))
Unit(A, i, u) ==
    IF u[i] # R(0) THEN u[i]
    ELSE LET c == MaxAbs([j \in 1..Len(A) |-> IF u[j] = R(0) THEN RAbs(A[i][j]) ELSE RDiv(RAbs(A[i][j]), u[j])])
         IN IF c = R(0) THEN R(1) ELSE c
Measured(A) ==
    LET u == TLCEval([i \in 1..Len(A) |-> Unit0(A, i)])
        w == TLCEval([i \in 1..Len(A) |-> Unit(A, i, u)])
    IN Mat(Len(A), Len(A), LAMBDA i, j : RDiv(A[i][j], RMul(w[i], w[j])))

\* outcomes: [ok, s, p], or "tie" when a pivot cannot be told from zero
Plain(A, exact) ==
    LET W == TLCEval(LDL(A, LAMBDA p : ~RLt(R("1e-30"), p)))
        k == Len(W)
        x == W[k][k]
        weak == {i \in 1..k : Sign(W[i][i], Eps(exact, A, i)) = 0}
    IN IF Len(A) = 0 THEN [ok |-> TRUE, s |-> 0, p |-> 0, tie |-> FALSE]
       ELSE [ok |-> RLt(R("1e-30"), x), s |-> 0, p |-> IF RLt(R("1e-30"), x) THEN 0 ELSE k, tie |-> weak # {}]

RECURSIVE Semi(_, _, _)
Semi(A, s, exact) ==
    IF s >= Len(A) THEN [ok |-> TRUE, s |-> 0, p |-> 0, tie |-> FALSE]
    ELSE LET B == TLCEval(Block(A, s, Len(A)))
             W == TLCEval(LDL(B, LAMBDA p : ~RLt(R("1e-30"), p)))
             k == Len(W)
             x == W[k][k]
             weak == {i \in 1..k : Sign(W[i][i], Eps(exact, B, i)) = 0} IN
         IF weak # {} THEN [ok |-> TRUE, s |-> 0, p |-> 0, tie |-> TRUE]
         ELSE IF RLt(R("1e-30"), x) THEN [ok |-> TRUE, s |-> 0, p |-> 0, tie |-> FALSE]
         ELSE IF RLt(x, R("-1e-30")) THEN [ok |-> FALSE, s |-> s, p |-> s + k, tie |-> FALSE]
         ELSE Semi(A, s + k, exact)


Decide(A, mode, exact) ==
    LET C == TLCEval(Measured(A)) IN IF mode = "semi" THEN Semi(C, 0, exact) ELSE Plain(C, exact)

\* positive semidefinite, by elimination of the first coordinate
RECURSIVE IsPSD(_)
IsPSD(A) ==
    IF Len(A) = 0 THEN TRUE
    ELSE LET n == Len(A)  a == A[1][1] IN
         IF RLt(a, R("-1e-30")) THEN FALSE
         ELSE IF RLe(a, R("1e-30"))
         THEN /\ \A j \in 2..n : RLe(RAbs(A[1][j]), R("1e-30"))
              /\ IsPSD(Block(A, 1, n))
         ELSE IsPSD(Mat(n - 1, n - 1, LAMBDA i, j : RSub(A[i + 1][j + 1], RDiv(RMul(A[1][i + 1], A[1][j + 1]), a))))

\* the vector with entries v on block (s, p]
QuadOn(A, s, p, v) ==
    RSum([i \in 1..p - s |-> RMul(v[s + i], RSum([j \in 1..p - s |-> RMul(A[s + i][s + j], v[s + j])]))])
QuadScale(A, s, p, v) ==
    RSum([i \in 1..p - s |-> RMul(RAbs(v[s + i]), RSum([j \in 1..p - s |-> RMul(RAbs(A[s + i][s + j]), RAbs(v[s + j]))]))])

\* What rounding errors of an elimination of the block amount to in v'Av: entries are exact relative
\* to the diagonal, where the last diagonal entry comes with the last pivot (of size ep).
ElimNoise(A, s, p, v, ep) ==
    Sq(RSum([i \in 1..p - s |-> RMul(RAbs(v[s + i]),
        RSqrt(RAdd(RAbs(A[s + i][s + i]), IF s + i = p THEN RAbs(ep) ELSE R(0))))]))
==============================================================================
