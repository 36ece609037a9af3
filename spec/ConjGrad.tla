------------------------------ MODULE ConjGrad -------------------------------
(***************************************************************************)
(* Conjugate gradients for A x = b.  A state holds the iterate x, the      *)
(* residual r = b - A x, the search direction p and |r|^2; `stuck` says    *)
(* that p'Ap = 0, so that there is no step.                                *)
(***************************************************************************)
EXTENDS Lin
CgInit(A, b, x0) ==
    LET r == VSub(b, MatVec(A, x0)) IN [x |-> x0, r |-> r, p |-> r, rr |-> RDot(r, r), stuck |-> FALSE, curv |-> R(1)]
CgStep(A, s) ==
    LET ap == MatVec(A, s.p)
        d  == TLCEval(RDot(s.p, ap)) IN
    IF d = R(0) \/ ~RIs(d) THEN [s EXCEPT !.stuck = TRUE, !.curv = R(0)]
    ELSE LET al == TLCEval(RDiv(s.rr, d))
             r1 == Axpy(RNeg(al), ap, s.r)
             n1 == TLCEval(RDot(r1, r1)) IN
         [x |-> Axpy(al, s.p, s.x), r |-> r1, p |-> IF s.rr = R(0) THEN r1 ELSE Axpy(RDiv(n1, s.rr), s.p, r1),
          rr |-> n1, stuck |-> FALSE,
          curv |-> RDiv(RAbs(d), RAdd(RMul(Norm2(s.p), Norm2(ap)), R("1e-300")))]     \* cosine of the angle between p and A p
Residual(A, b, x) == Norm2(VSub(b, MatVec(A, x)))
Frob(A) == RSqrt(RSum([i \in 1..Len(A) |-> RDot(A[i], A[i])]))
==============================================================================
