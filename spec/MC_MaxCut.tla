----------------------------- MODULE MC_MaxCut -------------------------------
(***************************************************************************)
(* All weighted graphs on N vertices (weights -E..E): over any sequence of *)
(* partitions the bound only rises, always equals the best score queried,  *)
(* and after all partitions it is the maximum cut.  Scores are invariant   *)
(* under complementing the partition, and the gradient sums to minus four  *)
(* times the score.  Every graph is written out for replay.                *)
(***************************************************************************)
EXTENDS MaxCut, Json, CSV, IOUtils, FiniteSets
CONSTANTS N, E
VARIABLES w, k, gamma, best
vars == <<w, k, gamma, best>>
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
IW == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE IF i < j THEN w[<<i, j>>] ELSE w[<<j, i>>]]]
\* partition number k: bit i of k
Pow(i) == IF i = 0 THEN 1 ELSE LET f[t \in 0..i] == IF t = 0 THEN 1 ELSE 2 * f[t - 1] IN f[i]
Part(t) == [i \in 1..N |-> (t \div Pow(i - 1)) % 2 = 0]
IScore(s) == LET S == {p \in Pairs : s[p[1]] # s[p[2]]}
                 f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET p == CHOOSE q \in T : TRUE IN w[p] + f[T \ {p}]
             IN f[S]
Init == w \in [Pairs -> -E..E] /\ k = 0 /\ gamma = -1000 /\ best = -1000
Step(W, s) == LET a == Answer(W, s, R(gamma), RLt(R(gamma), Score(W, s))) IN
              gamma' = (IF a.imp THEN RFloor(a.gamma) ELSE gamma)
Next == k < Pow(N) /\ Step(RM(IW), Part(k))
        /\ best' = (IF IScore(Part(k)) > best THEN IScore(Part(k)) ELSE best)
        /\ k' = k + 1 /\ UNCHANGED w
Laws(W, s) == /\ RSum(GradOf(W, s)) = RMul(R(-4), Score(W, s))
              /\ Score(W, s) = Score(W, [i \in 1..N |-> ~s[i]])
              /\ Score(W, s) = R(IScore(s))
Inv == gamma = best /\ (k > 0 => Laws(RM(IW), Part(k - 1)))
Mono == [][gamma' >= gamma]_vars
Emit == (k = 0 /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(IW)>>, IOEnv.OUT)
==============================================================================
