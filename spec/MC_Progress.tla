----------------------------- MODULE MC_Progress -----------------------------
(***************************************************************************)
(* The volume law along all sequences of cuts with depths on a grid: after *)
(* k cuts the squared volume is at most exp(-k/(n+1)), deeper is smaller,  *)
(* a second plane is never worse, and shallow discrete cuts never grow it. *)
(***************************************************************************)
EXTENDS Progress
CONSTANTS Dims, Q, K
VARIABLES n, cuts       \* cuts: <<first, second>> depths in 1/Q; second = Q: none
vars == <<n, cuts>>
A(i) == RDiv(R(i), R(Q))
P(c) == IF c[2] = Q THEN SingleParams(n, A(c[1])) ELSE SlabParams(n, A(c[1]), A(c[2]))
Vol(s) == FoldLeft(LAMBDA v, c : RMul(v, VolSq(n, P(c))), One, s)
Init == n \in Dims /\ cuts = <<>>
Next == /\ Len(cuts) < K
        /\ \E i \in 0..Q - 1, j \in 1..Q : i < j /\ cuts' = Append(cuts, <<i, j>>)
        /\ UNCHANGED n
Law == RLe(Vol(cuts), RExp(RDiv(R(-Len(cuts)), R(n + 1))))
Newest == cuts[Len(cuts)]
Deeper == cuts = <<>> \/
    /\ RLe(VolSq(n, P(Newest)), Shrink(n, A(Newest[1])))
    /\ \A i \in 0..Newest[1] : RLe(Shrink(n, A(Newest[1])), Shrink(n, A(i)))
    /\ \A i \in 1..Q : RLe(RMul(R(i), R(n)), R(Q)) => RLe(Shrink(n, RNeg(A(i))), One)
==============================================================================
