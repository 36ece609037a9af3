------------------------------ MODULE T_Lowpass ------------------------------
(* Validates recorded histories of the filter oracle and its instance. *)
EXTENDS Lowpass, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>
\* (of very large instances only the rows listed under "rows" are recorded)
Sampled(hh) == "rows" \in DOMAIN hh
Ns == {Hist[i].n : i \in {k \in 1..Len(Hist) : ~Sampled(Hist[k])}}
Table == [n \in Ns |-> RowsOf(n)]
IsCase(hh) == "case" \in DOMAIN hh
Inst(hh) ==
    IF IsCase(hh) THEN [np |-> NBand(hh.n, CasePass), ns |-> NBand(hh.n, CaseStop), lp |-> CaseLp, up |-> CaseUp, sp |-> CaseSp]
    ELSE [np |-> NBand(hh.n, R(hh.wpass)), ns |-> NBand(hh.n, R(hh.wstop)), lp |-> R(hh.lp), up |-> R(hh.up), sp |-> R(hh.sp)]

Near(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(R("1e-12"), s))

\* the instance itself
FieldFaults(hh) ==
    IF "fields" \notin DOMAIN hh THEN {"no instance"} ELSE
    LET I == Inst(hh)  F == hh.fields IN
    (IF F.mdim = MOf(hh.n) /\ F.nwpass = I.np /\ F.nwstop = I.ns THEN {} ELSE {"bands"})
    \cup (IF \A p \in {<<R(F.lp), I.lp>>, <<R(F.up), I.up>>, <<R(F.sp), I.sp>>} : Near(p[1], p[2], RAbs(p[2])) THEN {} ELSE {"limits"})
    \cup (IF IsCase(hh) => RLt(R(F.lp), R(1)) /\ RLt(R(1), R(F.up)) /\ RLt(R(0), R(F.sp)) /\ RLt(R(F.sp), R(F.lp)) THEN {} ELSE {"limits out of order"})
    \cup (IF Sampled(hh)
          THEN IF /\ ~F.ragged
                  /\ \A k \in 1..Len(hh.rows) : LET r == TLCEval(RowAt(hh.n, hh.rows[k] + 1)) IN
                        /\ Len(hh.spectrum[k]) = hh.n
                        /\ \A j \in 1..hh.n : Near(R(hh.spectrum[k][j]), r[j], R(100)) THEN {} ELSE {"spectrum"}
          ELSE LET T == Table[hh.n] IN
               IF Len(hh.spectrum) = MOf(hh.n) /\ \A i \in 1..MOf(hh.n) : /\ Len(hh.spectrum[i]) = hh.n
                                   /\ \A j \in 1..hh.n : Near(R(hh.spectrum[i][j]), T[i][j], R(100)) THEN {} ELSE {"spectrum"})

\* does the recorded cut `out` come from requirement c?
Matches(out, c, T, n, s) ==
    /\ Near(R(out.b0), c.b0, s)
    /\ IF Len(c.b1) = 0 THEN "b1" \notin DOMAIN out ELSE "b1" \in DOMAIN out /\ Near(R(out.b1), c.b1[1], s)
    /\ Len(out.g) = n
    /\ \A j \in 1..n : LET e == IF c.i = 0 THEN (IF j = 1 THEN R(1) ELSE R(0)) ELSE T[c.i][j] IN
                       Near(R(out.g[j]), IF c.sg = 1 THEN e ELSE RNeg(e), R(100))

CutFaults(out, maybe, T, n, S) ==
    IF \E c \in maybe : Matches(out, c, T, n, S[c.i]) THEN {} ELSE {"not the cut of a violated requirement"}

QueryFaults(hh, ev, out) ==
    IF "panic" \in DOMAIN out THEN {"panic"} ELSE
    LET T == Table[hh.n]  n == hh.n
        x == TLCEval(RV(ev.x))
        v == TLCEval(Responses(T, x))
        L == TLCEval(Lim(Inst(hh), R(out.limit)))
        W == TLCEval(Weights(T, x))
        S == TLCEval([i \in 0..Len(T) |-> RAdd(RAdd(RAbs(L.lp), RAdd(RAbs(L.up), RAbs(L.sp))), IF i = 0 THEN RAbs(x[1]) ELSE W[i])])
        eps == IF "exact" \in DOMAIN hh THEN R(0) ELSE R("1e-12")
        cuts == TLCEval({FirstCut(x)} \cup UNION {CutsAt(L, v[i], i) : i \in 1..Len(T)})
        sure == {c \in cuts : RLt(RMul(eps, S[c.i]), c.b0)}
        maybe == IF "exact" \in DOMAIN hh THEN sure ELSE {c \in cuts : ~RLt(c.b0, RNeg(RMul(eps, S[c.i])))}
    IN IF ev.mode = "feas"
       THEN IF out.feas THEN (IF sure = {} THEN {} ELSE {"accepted a design that violates a requirement"})
            ELSE (IF maybe # {} THEN {} ELSE {"rejected a design that meets the specification"}) \cup CutFaults(out, maybe, T, n, S)
       ELSE IF ~out.imp
       THEN (IF maybe # {} THEN {} ELSE {"rejected a design that meets the specification"}) \cup CutFaults(out, maybe, T, n, S)
            \cup (IF R(out.gamma) = R(out.limit) THEN {} ELSE {"limit changed without improvement"})
       ELSE LET stop == L.ns + 1..Len(T)
                \* (the depth is zero relative to the new limit, and the response itself for the bound zero)
                ok == \E i \in stop : /\ \A j \in stop : ~RLt(RAdd(v[i], RMul(R("1e-12"), S[i])), v[j])
                                      /\ Matches(out, [sg |-> 1, i |-> i, b0 |-> R(0), b1 |-> <<v[i]>>], T, n, S[i])
                                      /\ Near(R(out.gamma), v[i], S[i])
            IN (IF sure = {} THEN {} ELSE {"accepted a design that violates a requirement"})
               \cup (IF ok /\ R(out.b0) = R(0) THEN {} ELSE {"improvement"})

\* a complete optimization run on the ready-made instance
RunFaults(hh, out) ==
    IF "panic" \in DOMAIN out THEN {"panic"} ELSE IF ~out.found THEN (IF hh.expect THEN {"no design found"} ELSE {}) ELSE
    LET T == Table[hh.n]
        x == TLCEval(RV(out.x))
        v == TLCEval(Responses(T, x))
        I == Inst(hh)
        g == R(out.gamma)
        eps == RMul(R("1e-12"), RAdd(R(10), RMul(R(Len(x)), MaxAbs(x)))) IN
    (IF \A i \in 1..I.np : RLe(RSub(I.lp, eps), v[i]) /\ RLe(v[i], RAdd(I.up, eps)) THEN {} ELSE {"design outside the passband limits"})
    \cup (IF \A i \in I.ns + 1..Len(T) : RLe(v[i], RAdd(g, eps)) /\ RLe(RNeg(eps), v[i]) THEN {} ELSE {"stopband response above the reported optimum"})
    \cup (IF \E i \in I.ns + 1..Len(T) : RLe(RAbs(RSub(v[i], g)), eps) THEN {} ELSE {"reported optimum not attained"})
    \cup (IF \A i \in I.np + 1..I.ns : RLe(RNeg(eps), v[i]) THEN {} ELSE {"negative response"})
    \cup (IF RLe(g, I.sp) THEN {} ELSE {"reported optimum above the limit"})

IsRun(hh) == "driver" \in DOMAIN hh
Faults(hh, k) == IF IsRun(hh) THEN RunFaults(hh, hh.out)
                 ELSE IF k = 0 THEN FieldFaults(hh) ELSE QueryFaults(hh, hh.log[k], hh.log[k].out)
Steps(hh) == IF IsRun(hh) THEN 1 ELSE 1 + Len(hh.log)

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Steps(Hist[h])
        /\ bad' = Faults(Hist[h], l)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
