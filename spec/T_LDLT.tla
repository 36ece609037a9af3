------------------------------- MODULE T_LDLT --------------------------------
(* Validates recorded histories of the factorization manager. *)
EXTENDS LDLT, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad,
          o      \* what the object has decided: [st, s, p, at, wit]: state, block, log index of the matrix and of the witness
vars == <<h, l, bad, o>>
Panicked(ev) == "panic" \in DOMAIN ev.out
Tol == R("1e-12")

FactorFaults(ev, out) ==
    IF Panicked(ev) THEN {"panic"} ELSE
    LET A == TLCEval(RM(ev.a))
        want == TLCEval(Decide(A, ev.mode, ev.exact)) IN
    (IF out.spd = out.ok /\ (out.ok => out.p = 0) /\ (~out.ok => out.s < out.p /\ out.p <= Len(A)) THEN {} ELSE {"inconsistent answer"})
    \cup (IF want.tie \/ (want.ok = out.ok /\ (want.ok \/ (want.p = out.p /\ want.s = out.s))) THEN {} ELSE {"wrong verdict"})

WitnessFaults(ev, out, o_, Am) ==
    IF o_.st = "pd" THEN (IF Panicked(ev) THEN {} ELSE {"witness of a positive definite matrix"})
    ELSE IF Panicked(ev) THEN {"panic"} ELSE
    LET A == TLCEval(RM(Am))  v == TLCEval(RV(out.wit))  ep == R(out.ep)
        q == QuadOn(A, o_.s, o_.p, v) IN
    (IF v[o_.p] = R(1) THEN {} ELSE {"last entry of the witness"})
    \cup (IF RLe(R(0), ep) THEN {} ELSE {"negative amount"})
    \cup (IF RLe(RAbs(RAdd(q, ep)), RMul(Tol, ElimNoise(A, o_.s, o_.p, v, ep))) THEN {} ELSE {"witness does not prove it"})
    \cup (IF out.spd THEN {"witness changed the verdict"} ELSE {})

QuadFaults(ev, out, o_, wit) ==
    IF Panicked(ev) THEN {"panic"} ELSE
    LET B == TLCEval(RM(ev.b))  v == TLCEval(RV(wit)) IN
    IF RLe(RAbs(RSub(R(out.v), QuadOn(B, o_.s, o_.p, v))), RMul(R("1e-12"), QuadScale(B, o_.s, o_.p, v))) THEN {} ELSE {"quadratic form"}

SqrtFaults(ev, out, o_, Am, mode) ==
    IF o_.st = "not" THEN (IF Panicked(ev) THEN {} ELSE {"square root after a failure"})
    ELSE IF Panicked(ev) THEN {"panic"}
    ELSE LET d == Decide(RM(Am), "full", FALSE) IN
    IF mode = "semi" /\ (d.tie \/ ~d.ok) THEN {}     \* only of (surely) positive definite matrices
    ELSE
    LET A == TLCEval(RM(Am))  G == TLCEval(RM(out.r))  n == Len(A)
        P == TLCEval(MatMul(Transpose(G), G)) IN
    (IF \A i \in 1..n : /\ RLt(R(0), G[i][i]) /\ \A j \in 1..i - 1 : G[i][j] = R(0) THEN {} ELSE {"not upper triangular with positive diagonal"})
    \cup (IF \A i, j \in 1..n : RLe(RAbs(RSub(P[i][j], A[i][j])), RMul(Tol, RSqrt(RMul(A[i][i], A[j][j])))) THEN {} ELSE {"not a square root"})

Faults(log, ev, oo) ==
    CASE ev.op = "factor" -> FactorFaults(ev, ev.out)
      [] ev.op = "witness" -> WitnessFaults(ev, ev.out, oo, log[oo.at].a)
      [] ev.op = "quad" -> QuadFaults(ev, ev.out, oo, log[oo.wit].out.wit)
      [] ev.op = "sqrt" -> SqrtFaults(ev, ev.out, oo, log[oo.at].a, log[oo.at].mode)

Log == Hist[h].log
Ev  == Log[l + 1]
After == CASE Ev.op = "factor" /\ ~Panicked(Ev) -> [st |-> IF Ev.out.ok THEN "pd" ELSE "not", s |-> Ev.out.s, p |-> Ev.out.p, at |-> l + 1, wit |-> 0]
           [] Ev.op = "witness" /\ ~Panicked(Ev) -> [o EXCEPT !.wit = l + 1]
           [] OTHER -> o
Enabled == CASE Ev.op = "factor" -> TRUE
             [] Ev.op = "witness" -> o.st # "fresh"
             [] Ev.op = "quad" -> o.st = "not" /\ o.wit > 0
             [] Ev.op = "sqrt" -> o.st # "fresh"

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {} /\ o = [st |-> "fresh", s |-> 0, p |-> 0, at |-> 0, wit |-> 0]
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Log)
        /\ IF Enabled THEN bad' = Faults(Log, Ev, o) /\ o' = After ELSE UNCHANGED <<bad, o>>
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
