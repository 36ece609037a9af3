--------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Linear algebra over HP: vectors are sequences of reals, matrices are    *)
(* sequences of rows.  TLCEval only forces evaluation.                     *)
(***************************************************************************)
EXTENDS HP, Integers, Sequences, SequencesExt, TLC

Vec(n, F(_))    == TLCEval([i \in 1..n |-> F(i)])
Mat(m, n, F(_, _)) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> F(i, j)])])
RV(s)           == Vec(Len(s), LAMBDA i : R(s[i]))          \* numerals to reals
RM(s)           == Vec(Len(s), LAMBDA i : RV(s[i]))
VAdd(u, v)      == Vec(Len(u), LAMBDA i : RAdd(u[i], v[i]))
VSub(u, v)      == Vec(Len(u), LAMBDA i : RSub(u[i], v[i]))
VScale(a, v)    == Vec(Len(v), LAMBDA i : RMul(a, v[i]))
Axpy(a, x, y)   == Vec(Len(x), LAMBDA i : RAdd(RMul(a, x[i]), y[i]))     \* a x + y
Norm2(v)        == RSqrt(RDot(v, v))
MatVec(A, x)    == Vec(Len(A), LAMBDA i : RDot(A[i], x))
Quad(A, x)      == RDot(x, MatVec(A, x))
MScale(a, A)    == Vec(Len(A), LAMBDA i : VScale(a, A[i]))
Col(A, j)       == Vec(Len(A), LAMBDA i : A[i][j])
Transpose(A)    == IF A = <<>> THEN A ELSE Vec(Len(A[1]), LAMBDA j : Col(A, j))
MatMul(A, B)    == LET Bt == Transpose(B) IN Vec(Len(A), LAMBDA i : Vec(Len(Bt), LAMBDA j : RDot(A[i], Bt[j])))
Eye(n)          == Mat(n, n, LAMBDA i, j : IF i = j THEN R(1) ELSE R(0))
Diag(v)         == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE R(0))
Sq(a)           == RMul(a, a)
RECURSIVE RPow(_, _)
RPow(a, n)      == IF n = 0 THEN R(1)
                   ELSE LET s == TLCEval(RPow(a, n \div 2)) IN
                        IF n % 2 = 0 THEN RMul(s, s) ELSE RMul(a, RMul(s, s))
MaxAbs(v)       == FoldLeft(LAMBDA m, x : RMax(m, RAbs(x)), R(0), v)
AllReal(v)      == \A i \in 1..Len(v) : RIs(v[i])

(***************************************************************************)
(* LDL' factorization of the leading rows of a symmetric matrix, by rows:  *)
(* row i is the sequence of d_j * l_ij (j < i) followed by the pivot d_i.  *)
(* Stop(p) says that a pivot p ends the factorization (after recording it).*)
(***************************************************************************)
RowOf(W, A, i) ==
    LET w == FoldLeft(LAMBDA r, j :
                  Append(r, RSub(A[i][j],
                                 RSum([k \in 1..j - 1 |-> RDiv(RMul(r[k], W[j][k]), W[k][k])]))),
                  <<>>, [j \in 1..i - 1 |-> j])
        p == RSub(A[i][i], RSum([k \in 1..i - 1 |-> RDiv(RMul(w[k], w[k]), W[k][k])]))
    IN Append(TLCEval(w), p)
LDL(M, Stop(_)) ==
    LET A == TLCEval(M) IN
    IF Len(A) = 0 THEN <<>>     \* (this also makes TLC evaluate A here)
    ELSE FoldLeft(LAMBDA W, i : IF W # <<>> /\ Stop(W[Len(W)][Len(W)]) THEN W ELSE Append(W, TLCEval(RowOf(W, A, i))),
                  <<>>, [i \in 1..Len(A) |-> i])
Pivots(W)   == Vec(Len(W), LAMBDA i : W[i][i])
NotPos(p)   == ~RLt(R(0), p)
\* number of the first leading block that is not positive definite, 0 if there is none
FirstNonPD(A) == LET W == LDL(A, NotPos) IN
                 IF Len(W) > 0 /\ NotPos(W[Len(W)][Len(W)]) THEN Len(W) ELSE 0
IsPD(A)     == FirstNonPD(A) = 0

\* Cholesky rows of a positive definite matrix: A = L L'
Chol(A) == LET W == TLCEval(LDL(A, NotPos)) IN
           Vec(Len(W), LAMBDA i : Vec(i, LAMBDA j :
               IF j = i THEN RSqrt(W[i][i]) ELSE RDiv(W[i][j], RSqrt(W[j][j]))))
\* solution of L y = b, L lower triangular rows
FwdSolve(L, b) ==
    FoldLeft(LAMBDA y, i : Append(y, RDiv(RSub(b[i], RDot(y, SubSeq(L[i], 1, i - 1))), L[i][i])),
             <<>>, [i \in 1..Len(b) |-> i])
\* L' v and L v
LtVec(L, v) == Vec(Len(v), LAMBDA i : RSum([k \in 1..Len(v) - i + 1 |-> RMul(L[i + k - 1][i], v[i + k - 1])]))
LVec(L, v)  == Vec(Len(v), LAMBDA i : RDot(L[i], SubSeq(v, 1, i)))
==============================================================================
