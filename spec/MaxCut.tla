------------------------------- MODULE MaxCut --------------------------------
(***************************************************************************)
(* The max-cut oracle on a weight matrix W (usually symmetric).  A point is *)
(* read as a partition by the signs of its coordinates; its score is what  *)
(* the edges across weigh above the diagonal.  Its only state is the bound. *)
(***************************************************************************)
EXTENDS Lin

Side(x)      == [i \in 1..Len(x) |-> ~RLt(x[i], R(0))]      \* zero counts as positive
Cross(W, s, i) == RSum([j \in 1..Len(s) |-> IF s[i] # s[j] THEN W[i][j] ELSE R(0)])
Score(W, s)  == RSum([i \in 1..Len(s) |-> RSum([j \in 1..Len(s) |-> IF i < j /\ s[i] # s[j] THEN W[i][j] ELSE R(0)])])
GradOf(W, s) == Vec(Len(s), LAMBDA i : RMul(R(-2), Cross(W, s, i)))
\* answer to a query with bound gamma (above: score strictly above it)
Answer(W, s, gamma, above) ==
    [imp |-> above, gamma |-> IF above THEN Score(W, s) ELSE gamma,
     g |-> GradOf(W, s), b0 |-> IF above THEN RNeg(Score(W, s)) ELSE gamma]
==============================================================================
