------------------------------- MODULE MC_Power ------------------------------
(***************************************************************************)
(* All symmetric integer matrices of order N and small starts.  The vector *)
(* stays normalised, for positive semidefinite matrices the Rayleigh       *)
(* quotient never decreases, and stopping by the vector test leaves an     *)
(* approximate eigenvector.                                                *)
(***************************************************************************)
EXTENDS PowerIter, Json, CSV, IOUtils, FiniteSets
CONSTANTS N, Neg, Hi, Steps
VARIABLES a, x0, done
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i >= j}
IA == [i \in 1..N |-> [j \in 1..N |-> IF i >= j THEN a[<<i, j>>] ELSE a[<<j, i>>]]]
Init == a \in [Pairs -> -Neg..Hi] /\ x0 \in {[i \in 1..N |-> 1], [i \in 1..N |-> i], [i \in 1..N |-> IF i = 1 THEN 3 ELSE -1]} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, x0>>
Near(u, v) == RLe(RAbs(RSub(u, v)), R("1e-30"))
OneStep(variant, A, s, t) ==
    \/ ~RIs(t.v)                                        \* A x = 0
    \/ /\ Near(IF variant = 4 THEN Norm1(t.x) ELSE Norm2(t.x), R(1))
       /\ IsPD(A) => RLe(s.v, RAdd(t.v, R("1e-30")))
       /\ variant \in {1, 4} => RLe(EigResidual(A, Unit(t.x)), RAdd(R("1e-30"), RMul(Frob(A), RDiv(t.d, Norm2(t.x)))))
       /\ \A w \in 1..4 : Near(t.v, Rayleigh(A, Scaled(w, t.x)))
Walk(variant, A, xx) ==
    FoldLeft(LAMBDA st, k : LET t == TLCEval(PiStep(variant, A, st.s)) IN
                            [s |-> t, ok |-> st.ok /\ OneStep(variant, A, st.s, t)],
             [s |-> TLCEval(PiInit(variant, A, xx)), ok |-> TRUE], [k \in 1..Steps |-> k]).ok
Inv == done => LET A == TLCEval(RM(IA)) IN \A variant \in 1..4 : Walk(variant, A, RV(x0))
Emit == (done /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([a |-> IA, x |-> x0])>>, IOEnv.OUT)
==============================================================================
