------------------------------- MODULE Profit --------------------------------
(***************************************************************************)
(* The profit maximization oracles.  Quantities x = exp(y), production     *)
(* p A x_1^a_1 x_2^a_2, cost prices q, input limit x_1 <= k.  Maximise the *)
(* profit  exp(ln(pA) + a y) - q exp(y)  over  y_1 <= ln k.                *)
(*                                                                         *)
(* State: `last`, the constraint that was reported last (they are checked  *)
(* in rotation), and for the discrete variant `yd`, the logarithms of the  *)
(* integral point reused on a retry.                                       *)
(***************************************************************************)
EXTENDS Trans

\* instance: [lnps, lnk, el, pr] (pr: prices)
Instance(params, el, pr) ==
    [lnps |-> RLn(RMul(params[1], params[2])), lnk |-> RLn(params[3]), el |-> el, pr |-> pr]
\* robust instance at y: worst case of the uncertainty u = <<e1, e2, e3, e4, e5>>
Robust(params, el, pr, u, y) ==
    Instance(<<RSub(params[1], u[3]), params[2], RSub(params[3], u[4])>>,
             Vec(2, LAMBDA i : IF RLt(R(0), y[i]) THEN RSub(el[i], u[i]) ELSE RAdd(el[i], u[i])),
             Vec(2, LAMBDA i : RAdd(pr[i], u[5])))

\* everything about a point
Eval(I, y) ==
    LET lc == TLCEval(RAdd(I.lnps, RDot(I.el, y)))
        q  == TLCEval(Vec(2, LAMBDA i : RMul(I.pr[i], RExp(y[i]))))
        cobb == TLCEval(RExp(lc)) IN
    [y |-> y, lc |-> lc, q |-> q, vx |-> RAdd(q[1], q[2]), cobb |-> cobb, f0 |-> RSub(y[1], I.lnk)]
ProfitAt(e) == RSub(e.cobb, e.vx)

\* constraint c (0: input limit, 1: profit) as a cut; its value is meaningful for constraint 1 only if gamma + vx > 0
Value(I, e, gamma, c) == IF c = 0 THEN e.f0 ELSE RSub(RLn(RAdd(gamma, e.vx)), e.lc)
Grad(I, e, gamma, c)  == IF c = 0 THEN <<R(1), R(0)>>
                         ELSE Vec(2, LAMBDA i : RSub(RDiv(e.q[i], RAdd(gamma, e.vx)), I.el[i]))
\* violated, with the benefit of the doubt eps
Violated(I, e, gamma, c, eps) ==
    IF c = 0 THEN RLt(RMul(eps, RAdd(R(1), RAdd(RAbs(I.lnk), RAbs(e.y[1])))), e.f0)
    ELSE RLt(RAdd(e.cobb, RMul(eps, RMul(RAdd(R(10), RAbs(e.lc)), RAdd(e.cobb, RAdd(RAbs(gamma), e.vx))))), RAdd(gamma, e.vx))
ImpGrad(I, e) == Vec(2, LAMBDA i : RSub(RDiv(e.q[i], e.cobb), I.el[i]))
==============================================================================
