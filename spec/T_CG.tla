-------------------------------- MODULE T_CG ---------------------------------
(***************************************************************************)
(* Validates recorded solves.  The specification's run is followed next to *)
(* one from slightly perturbed data; the distance between the two, times   *)
(* Amp, bounds what rounding can do to the implementation's residual.      *)
(* (Loss of orthogonality makes the last steps of larger systems more      *)
(* sensitive than that; their residuals are compared to 1e-6.)             *)
(* (Of some systems the first `exact` iterations are free of rounding; up  *)
(* to there the comparison with the tolerance is judged exactly.)          *)
(* From that, `may` is the first iteration at which the implementation may *)
(* stop and `must` the first at which it has to.                           *)
(***************************************************************************)
EXTENDS ConjGrad, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, bad
vars == <<h, bad>>
Amp == R(1000)
Wiggle(v, sc) == Vec(Len(v), LAMBDA i : RAdd(v[i], RMul(RMul(R("1e-15"), sc), R(IF i % 3 = 0 THEN -1 ELSE IF i % 2 = 0 THEN 1 ELSE -1))))

Judge(st00, k, A, tol, exact) ==        \* record iteration k (0 = before the first) of the pair of runs
    LET st == [st00 EXCEPT !.sens = RMax(@, Norm2(VSub(st00.s.r, st00.t.r)))]      \* largest distance so far
        rn == TLCEval(RSqrt(st.s.rr))
        slack == TLCEval(RAdd(RMul(IF Len(A) <= 3 THEN R("1e-11") ELSE R("1e-6"), st.scale), RMul(Amp, st.sens)))
        st1 == IF k <= exact
               THEN LET stop == RLt(rn, tol) IN [st EXCEPT !.may = IF st.may < 0 /\ stop THEN k ELSE st.may, !.must = IF st.must < 0 /\ stop THEN k ELSE st.must]
               ELSE
               [st EXCEPT !.may  = IF st.may < 0 /\ RLt(rn, RAdd(RMul(tol, R("1.000001")), slack)) THEN k ELSE st.may,
                          !.must = IF st.must < 0 /\ RLt(rn, RSub(RMul(tol, R("0.999999")), slack)) THEN k ELSE st.must]
    IN  [st1 EXCEPT !.xs = IF st1.may >= 0 THEN Append(@, [x |-> st.s.x, e |-> Norm2(VSub(st.s.x, st.t.x))]) ELSE @]

Follow(A, b, x0, tol, max, exact) ==
    LET fr == TLCEval(Frob(A))
        scale0 == TLCEval(RAdd(Norm2(b), RMul(fr, Norm2(x0))))
        st0 == [s |-> CgInit(A, b, x0), t |-> CgInit(A, Wiggle(b, scale0), x0), may |-> -1, must |-> -1, xs |-> <<>>, scale |-> scale0, stuck |-> -1, sens |-> R(0), vague |-> FALSE]
    IN FoldLeft(LAMBDA st, k :
           IF st.must >= 0 \/ st.stuck >= 0 \/ st.vague THEN st
           ELSE LET s1 == TLCEval(CgStep(A, st.s)) IN
                IF s1.stuck THEN (IF k = 1 THEN [st EXCEPT !.stuck = k] ELSE [st EXCEPT !.vague = TRUE])
                ELSE IF RLt(s1.curv, R("1e-4")) THEN [st EXCEPT !.vague = TRUE]
                ELSE TLCEval(Judge([st EXCEPT !.s = s1, !.t = TLCEval(CgStep(A, st.t)), !.scale = RMax(@, RAdd(Norm2(b), RMul(fr, Norm2(s1.x))))], k, A, tol, exact)),
           TLCEval(Judge(st0, 0, A, tol, exact)), [k \in 1..max |-> k])

NearOne(x, xs) == \E i \in 1..Len(xs) : RLe(Norm2(VSub(x, xs[i].x)), RAdd(RMul(R("1e-6"), Norm2(xs[i].x)), RMul(Amp, xs[i].e)))

Verdict(hh, o, A, b, x0, tol) ==
    LET fr == Frob(A)
        given == "x0" \in DOMAIN hh
        st == IF hh.replay THEN TLCEval(Follow(A, b, x0, tol, hh.max, IF "exact" \in DOMAIN hh THEN hh.exact ELSE -1)) ELSE [vague |-> TRUE]
        x == IF o.ok THEN RV(o.x) ELSE <<>>
        rounding == RMul(R("1e-13"), RMul(R(Len(b)), RAdd(Norm2(b), RMul(fr, RAdd(Norm2(x0), Norm2(x)))))) IN
    (IF o.kept THEN {} ELSE {"an input was modified"})
    \cup (IF o.ok /\ ~(Len(x) = Len(b) /\ RLe(Residual(A, b, x), RAdd(RMul(tol, R("1.000001")), rounding))) THEN {"residual of the returned vector"} ELSE {})
    \cup (IF hh.solvable /\ ~o.ok THEN {"solvable system reported as not converged"} ELSE {})
    \cup (IF st.vague THEN {}
          ELSE IF st.stuck >= 0 /\ st.may < 0 THEN (IF o.ok THEN {"no descent direction but a vector was returned"} ELSE {})
          ELSE (IF o.ok /\ st.may < 0 THEN {"converged before it can have"} ELSE {})
               \cup (IF ~o.ok /\ st.must >= 0 THEN {"not converged although the limit suffices"} ELSE {})
               \cup (IF o.ok /\ st.may >= 0 /\ ~NearOne(x, st.xs) THEN {"returned vector is not the iterate"} ELSE {})
               \cup (IF o.ok /\ st.must = 0 /\ st.may = 0 /\ VSub(x, x0) # Vec(Len(x0), LAMBDA i : R(0)) THEN {"solving start not returned unchanged"} ELSE {}))

Faults(hh) ==
    LET A == TLCEval(RM(hh.a))  b == TLCEval(RV(hh.b)) IN
    IF "panic" \in DOMAIN hh \/ "panic" \in DOMAIN hh.out THEN {"panic"}
    ELSE Verdict(hh, hh.out, A, b, IF "x0" \in DOMAIN hh THEN RV(hh.x0) ELSE Vec(Len(b), LAMBDA i : R(0)), R(hh.tol))

Init == h \in 1..Len(Hist) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Faults(Hist[h]) /\ UNCHANGED h
Good == bad = {"?"} \/ bad = {}
==============================================================================
