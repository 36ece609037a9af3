------------------------------- MODULE Lowpass -------------------------------
(***************************************************************************)
(* The lowpass filter oracle.  An instance has n coefficients and M = 15 n *)
(* frequencies equally spaced over [0, pi]; the response at a frequency w  *)
(* is x_1 + 2 sum_j x_(j+1) cos(j w).  The first NPass frequencies are the *)
(* passband, those after the first NStop the stopband, the rest is the     *)
(* transition band.  A design meets the specification if every requirement *)
(* below holds; the oracle answers with any one that is violated.          *)
(***************************************************************************)
EXTENDS Trans

MOf(n)      == 15 * n
\* the row of frequency i: 1, 2 cos w, 2 cos 2w, ...  (Chebyshev recurrence)
RowAt(n, i) ==
    LET c == RCos(RDiv(RMul(Pi, R(i - 1)), R(MOf(n) - 1)))
        t == FoldLeft(LAMBDA s, j : Append(s, IF j = 1 THEN R(1) ELSE IF j = 2 THEN c
                                              ELSE RSub(RMul(RMul(R(2), c), s[j - 1]), s[j - 2])),
                      <<>>, [j \in 1..n |-> j])
    IN Vec(n, LAMBDA j : IF j = 1 THEN R(1) ELSE RMul(R(2), t[j]))
RowsOf(n)   == Vec(MOf(n), LAMBDA i : RowAt(n, i))
NBand(n, w) == RFloor(RMul(w, R(MOf(n) - 1))) + 1

\* the ready-made instance
CaseLp == RDiv(R(1), Sq(R("1.025")))
CaseUp == Sq(R("1.025"))
CaseSp == Sq(R("0.125"))
CasePass == R("0.12")
CaseStop == R("0.2")

(***************************************************************************)
(* Requirements, as the cut each gives when it is violated by the design x *)
(* with responses v: a sign and a frequency (0 for the first coefficient), *)
(* the depth, and the depth of the opposite bound (a sequence, empty if one-sided).   *)
(***************************************************************************)
None == <<>>
Lim(I, sp)  == [np |-> I.np, ns |-> I.ns, lp |-> I.lp, up |-> I.up, sp |-> sp]
CutsAt(L, v, i) ==
    IF i <= L.np THEN {[sg |-> 1, i |-> i, b0 |-> RSub(v, L.up), b1 |-> <<RSub(v, L.lp)>>],
                       [sg |-> -1, i |-> i, b0 |-> RSub(L.lp, v), b1 |-> <<RSub(L.up, v)>>]}
    ELSE IF i > L.ns THEN {[sg |-> 1, i |-> i, b0 |-> RSub(v, L.sp), b1 |-> <<v>>],
                           [sg |-> -1, i |-> i, b0 |-> RNeg(v), b1 |-> <<RSub(L.sp, v)>>]}
    ELSE {[sg |-> -1, i |-> i, b0 |-> RNeg(v), b1 |-> None]}
FirstCut(x) == [sg |-> -1, i |-> 0, b0 |-> RNeg(x[1]), b1 |-> None]

Responses(rows, x) == Vec(Len(rows), LAMBDA i : RDot(rows[i], x))
Weights(rows, x)   == Vec(Len(rows), LAMBDA i : RSum([j \in 1..Len(x) |-> RAbs(RMul(rows[i][j], x[j]))]))
==============================================================================
