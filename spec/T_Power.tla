------------------------------- MODULE T_Power -------------------------------
(***************************************************************************)
(* Validates recorded power iterations.  As in T_CG the specification's    *)
(* run is followed next to a perturbed one, whose distance bounds the      *)
(* effect of rounding, except for runs that are free of rounding ("exact").*)
(***************************************************************************)
EXTENDS PowerIter, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, bad
vars == <<h, bad>>
Amp == R(1000)
Wiggle(v, sc) == Vec(Len(v), LAMBDA i : RAdd(v[i], RMul(RMul(R("1e-15"), sc), R(IF i % 3 = 0 THEN -1 ELSE IF i % 2 = 0 THEN 1 ELSE -1))))

Follow(variant, A, x0, tol, max, it, exact) ==
    LET fr == TLCEval(Frob(A))
        st0 == [s |-> PiInit(variant, A, x0), t |-> PiInit(variant, A, Wiggle(x0, Norm2(x0))), may |-> -1, must |-> -1, hit |-> FALSE, x |-> <<>>, e |-> R(0)] IN
    FoldLeft(LAMBDA st, k :
        IF st.must >= 0 /\ (st.must < k - 1 \/ st.hit) THEN st
        ELSE LET s1 == TLCEval(PiStep(variant, A, st.s))
                 t1 == TLCEval(PiStep(variant, A, st.t))
                 e == TLCEval(RAdd(R("1e-15"), Norm2(VSub(s1.x, t1.x))))
                 e0 == TLCEval(RAdd(e, Norm2(VSub(st.s.x, st.t.x))))
                 slack == TLCEval(RMul(RMul(Amp, e0), IF variant \in {1, 4} THEN R(1) ELSE fr)) IN
             [s |-> s1, t |-> t1,
              may |-> IF exact THEN (IF st.may < 0 /\ RLe(s1.d, tol) THEN k - 1 ELSE st.may) ELSE IF st.may < 0 /\ ~RLt(RAdd(RMul(tol, R("1.000001")), slack), s1.d) THEN k - 1 ELSE st.may,
              must |-> IF exact THEN (IF st.must < 0 /\ RLe(s1.d, tol) THEN k - 1 ELSE st.must) ELSE IF st.must < 0 /\ RLe(s1.d, RSub(RMul(tol, R("0.999999")), slack)) THEN k - 1 ELSE st.must,
              hit |-> st.hit \/ k - 1 = it,
              x |-> IF k - 1 = it \/ (k = max /\ it = max) THEN s1.x ELSE st.x,
              e |-> IF k - 1 = it \/ (k = max /\ it = max) THEN e0 ELSE st.e],
        TLCEval(st0), [k \in 1..max |-> k])

Upto(x, y, e) == RLe(Norm2(VSub(x, y)), e) \/ RLe(Norm2(VAdd(x, y)), e)
Verdict(hh, o, A, x0, tol) ==
    LET st == TLCEval(Follow(hh.variant, A, x0, tol, hh.max, o.it, "exact" \in DOMAIN hh))
        x == RV(o.x)  v == R(o.v)  fr == Frob(A)
        \* a run that left the numbers (A x = 0) is degenerate
        real == RIs(st.s.v) IN
    IF hh.max > 0 /\ ~real THEN {}
    ELSE
    (IF RLe(RAbs(RSub(Norm2(x), R(1))), R("1e-12")) THEN {} ELSE {"unit norm"})
    \cup (IF RLe(RAbs(RSub(v, Rayleigh(A, x))), RMul(R("1e-12"), fr)) THEN {} ELSE {"value is not the Rayleigh quotient"})
    \cup (IF o.it <= hh.max THEN {} ELSE {"count beyond the limit"})
    \cup (IF st.may < 0 /\ o.it < hh.max THEN {"stopped although the test cannot hold"} ELSE {})
    \cup (IF st.may >= 0 /\ o.it < st.may THEN {"stopped too early"} ELSE {})
    \cup (IF st.must >= 0 /\ o.it > st.must THEN {"stopped too late"} ELSE {})
    \cup (IF st.x # <<>> /\ o.it <= hh.max /\ ~Upto(x, Unit(st.x), RMul(Amp, RMul(st.e, RDiv(R(1), Norm2(st.x))))) THEN {"vector is not the iterate"} ELSE {})
    \cup (IF hh.variant \in {1, 4} /\ o.it < hh.max
             /\ ~RLe(EigResidual(A, x), RMul(fr, RAdd(R("1e-12"), RMul(tol, IF hh.variant = 4 THEN RSqrt(R(Len(x))) ELSE R("1.000001"))))) THEN {"not an approximate eigenvector"} ELSE {})

Faults(hh) ==
    IF "panic" \in DOMAIN hh \/ "panic" \in DOMAIN hh.out THEN {"panic"}
    ELSE LET A == TLCEval(RM(hh.a)) IN Verdict(hh, hh.out, A, RV(hh.x), R(hh.tol))

Init == h \in 1..Len(Hist) /\ bad = {"?"}
Next == bad = {"?"} /\ bad' = Faults(Hist[h]) /\ UNCHANGED h
Good == bad = {"?"} \/ bad = {}
==============================================================================
