------------------------------- MODULE MC_LMI --------------------------------
(***************************************************************************)
(* All linear matrix inequalities of order 2 in NV variables with small    *)
(* integer entries: at every grid point the answer is "feasible" exactly   *)
(* if Sylvester's criterion says so, and otherwise a cut that keeps every  *)
(* feasible grid point.  Each one is written out for replay.               *)
(***************************************************************************)
EXTENDS LMI, Json, CSV, IOUtils
CONSTANTS E, G, NV, General, Mod      \* entries -E..E, grid -G..G
VARIABLES f, b, done
Sym == {s \in [1..3 -> -E..E] : TRUE}
IMat(s) == <<<<s[1], s[2]>>, <<s[2], s[3]>>>>
Init == /\ f \in [1..NV -> Sym] /\ b \in (IF General THEN Sym ELSE {<<0, 0, 0>>}) /\ done = FALSE
        /\ (f[1][1] * 31 + f[1][2] * 17 + f[1][3] * 7 + b[1] * 5 + b[2] * 3 + b[3] + (IF NV > 1 THEN f[2][1] * 11 + f[2][2] * 13 + f[2][3] * 29 ELSE 0)) % Mod = 0
Next == ~done /\ done' = TRUE /\ UNCHANGED <<f, b>>
Grid == [1..NV -> -G..G]
IM(ff, bb, x) == [c \in 1..3 |-> IF General THEN bb[c] - (IF NV > 1 THEN ff[1][c] * x[1] + ff[2][c] * x[2] ELSE ff[1][c] * x[1])
                                 ELSE (IF NV > 1 THEN ff[1][c] * x[1] + ff[2][c] * x[2] ELSE ff[1][c] * x[1])]
PD(m) == m[1] > 0 /\ m[1] * m[3] - m[2] * m[2] > 0
RX(x) == RV([k \in 1..NV |-> x[k]])
Holds(ff, bb, F, B) ==
    \A x \in Grid :
        LET a == TLCEval(Answer(F, B, General, RX(x), TRUE)) IN
        /\ (a.kind = "feas") = PD(IM(ff, bb, x))
        /\ a.kind # "feas" => /\ RLe(R(0), a.b0)
                              /\ \A z \in Grid : PD(IM(ff, bb, z)) => RLe(Lhs(a.g, a.b0, RX(x), RX(z)), R("1e-30"))
Inv == done => Holds(f, b, [k \in 1..NV |-> RM(IMat(f[k]))], RM(IMat(b)))
Emit == (done /\ "OUT" \in DOMAIN IOEnv) =>
        CSVWrite("%1$s", <<ToJson([f |-> [k \in 1..NV |-> IMat(f[k])], b |-> IMat(b)])>>, IOEnv.OUT)
==============================================================================
