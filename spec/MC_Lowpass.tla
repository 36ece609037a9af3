----------------------------- MODULE MC_Lowpass ------------------------------
(***************************************************************************)
(* The scan behind the oracle: each band is scanned cyclically from where  *)
(* the previous call left it, bands in the order passband, stopband,       *)
(* transition band.  For every history of queries (each an arbitrary set   *)
(* of violated frequencies) the answer is "accepted" exactly if the set is *)
(* empty, a reported frequency is violated, and a frequency of the         *)
(* passband that stays violated is reported within one turn.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NPass, NStop, M, Steps
VARIABLES i1, i2, i3,      \* positions as kept by the oracle (0-based, last scanned)
          ans,             \* last answer: a frequency, or -1 for accepted
          viol, k,
          since            \* for each passband frequency: queries since it became violated without being reported
vars == <<i1, i2, i3, ans, viol, k, since>>
Init == i1 = -1 /\ i2 = NPass - 1 /\ i3 = NStop - 1 /\ ans = -1 /\ viol = {} /\ k = 0 /\ since = [f \in 0..NPass - 1 |-> 0]

Nxt(p, lo, hi) == IF p + 1 = hi THEN lo ELSE p + 1
\* scan of [lo, hi) from position p: <<new position, frequency found or -1>>
RECURSIVE Scan(_, _, _, _, _)
Scan(p, lo, hi, c, V) == IF c = 0 THEN <<p, -1>>
                         ELSE LET q == Nxt(p, lo, hi) IN IF q \in V THEN <<q, q>> ELSE Scan(q, lo, hi, c - 1, V)
Query(V) ==
    LET s1 == Scan(i1, 0, NPass, NPass, V)
        s3 == Scan(i3, NStop, M, M - NStop, V)
        s2 == Scan(i2, NPass, NStop, NStop - NPass, V)
    IN /\ viol' = V
       /\ i1' = s1[1]
       /\ IF s1[2] >= 0 THEN ans' = s1[2] /\ UNCHANGED <<i2, i3>>
          ELSE /\ i3' = s3[1]
               /\ IF s3[2] >= 0 THEN ans' = s3[2] /\ UNCHANGED i2
                  ELSE i2' = s2[1] /\ ans' = s2[2]
       /\ since' = [f \in 0..NPass - 1 |-> IF f \notin V \/ ans' = f THEN 0 ELSE since[f] + 1]
Next == k < Steps /\ k' = k + 1 /\ \E V \in SUBSET (0..M - 1) : Query(V)
View == <<i1, i2, i3, ans, viol, since>>
Exact == k > 0 => /\ (ans = -1) <=> (viol = {})
                  /\ ans # -1 => ans \in viol
Fair == \A f \in 0..NPass - 1 : since[f] < NPass
==============================================================================
