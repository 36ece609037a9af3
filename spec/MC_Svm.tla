------------------------------- MODULE MC_Svm --------------------------------
(***************************************************************************)
(* All data sets of K one-dimensional samples on a small grid, and all     *)
(* hyperplanes of a grid: unless the query separates, the direction it is  *)
(* answered with keeps every hyperplane of the grid that separates all     *)
(* samples with margin one.                                                *)
(***************************************************************************)
EXTENDS Svm, Json, CSV, IOUtils
CONSTANTS K, D, G
VARIABLES x, y, done
Init == x \in [1..K -> -D..D] /\ y \in [1..K -> {-1, 1}] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<x, y>>
Planes == {RV(<<a, b>>) : a, b \in -G..G}
Data == Vec(K, LAMBDA i : <<R(x[i])>>)
Holds(X, yy) ==
    LET sep == TLCEval({q \in Planes : Separates(Margins(X, yy, q))}) IN
    \A q \in Planes \ sep :
        LET m == TLCEval(Margins(X, yy, q))  i == FirstMin(m) IN
        /\ RLt(m[i], R(1))
        /\ \A z \in sep : RLe(RDot(Dir(X, yy, i), VSub(z, q)), R(0))
Inv == done => Holds(Data, y)
Emit == (done /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([x |-> [i \in 1..K |-> <<x[i]>>], y |-> y])>>, IOEnv.OUT)
==============================================================================
