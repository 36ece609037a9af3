----------------------------- MODULE MC_Errors -------------------------------
(* All pairs of small error values: sameness is an equivalence that exactly *)
(* identifies what must be named; every pair is written out for replay.     *)
EXTENDS Errors, Json, CSV, IOUtils, TLC
CONSTANTS Nums, Texts, Vals
VARIABLES a, b
Errs == [which : Kinds, iterations : Nums, max_iters : Nums, text : Texts, value : Vals \cup {NoVal}]
Default(f) == CASE f \in {"iterations", "max_iters"} -> CHOOSE n \in Nums : TRUE
                [] f = "text" -> CHOOSE t \in Texts : TRUE
                [] OTHER -> NoVal
\* fields a kind does not have stay at their default, so that each value is written once
Canon == {e \in Errs : \A f \in {"iterations", "max_iters", "text", "value"} \ Fields(e.which) : e[f] = Default(f)}
Init == a \in Canon /\ b \in Canon
Next == UNCHANGED <<a, b>>
Inv == /\ Same(a, a) /\ (Same(a, b) <=> Same(b, a))
       /\ Same(a, b) <=> (a = b)
       /\ (Same(a, b) => MustName(a) = MustName(b))
       /\ (a.which = b.which /\ MustName(a) = MustName(b) => Same(a, b))
Emit == ("OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b])>>, IOEnv.OUT)
==============================================================================
