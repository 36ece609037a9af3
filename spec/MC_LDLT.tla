------------------------------ MODULE MC_LDLT --------------------------------
(***************************************************************************)
(* All symmetric matrices of order N with entries in Entries: the          *)
(* factorization rule agrees with Sylvester's criterion (determinants of   *)
(* the leading blocks), and the semidefinite-tolerant rule is one-sided.   *)
(* Every matrix is written out for replay.                                 *)
(***************************************************************************)
EXTENDS LDLT, Json, CSV, IOUtils, FiniteSets
CONSTANTS N, Neg, Hi      \* entries -Neg..Hi
VARIABLES a, done
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i >= j}
Init == a \in [Pairs -> -Neg..Hi] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED a
At(i, j) == IF i >= j THEN a[<<i, j>>] ELSE a[<<j, i>>]
IA == [i \in 1..N |-> [j \in 1..N |-> At(i, j)]]

RECURSIVE Det(_, _)       \* of rows and columns in a sequence of indices
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Det(r, c) == IF r = <<>> THEN 1
             ELSE LET f[k \in 0..Len(c)] == IF k = 0 THEN 0
                       ELSE f[k - 1] + (IF k % 2 = 1 THEN 1 ELSE -1) * At(r[1], c[k]) * Det(Tail(r), Drop(c, k))
                  IN f[Len(c)]
Lead(k) == LET s == [i \in 1..k |-> i] IN Det(s, s)
IdxSeq(S) == SetToSortSeq(S, <)
PrincipalPSD == \A S \in SUBSET (1..N) : S # {} => Det(IdxSeq(S), IdxSeq(S)) >= 0
BlockPSD(s, p) == \A S \in SUBSET (s + 1..p) : S # {} => Det(IdxSeq(S), IdxSeq(S)) >= 0

FirstBad == LET B == {k \in 1..N : Lead(k) <= 0} IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : k <= j
Holds(A) ==
    LET pl == Decide(A, "full", TRUE)
        se == Decide(A, "semi", TRUE) IN
    /\ pl.ok = (FirstBad = 0) /\ pl.p = FirstBad
    /\ (IsPSD(A) <=> PrincipalPSD)
    /\ PrincipalPSD => se.ok
    /\ ~se.ok => ~BlockPSD(se.s, se.p)
    /\ pl.ok => se.ok
Inv == done => Holds(RM(IA))
Emit == (done /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(IA)>>, IOEnv.OUT)
==============================================================================
