----------------------------- MODULE MC_BSearch -----------------------------
(* All probe sequences on small dyadic intervals; the bracketing property. *)
EXTENDS BSearch, TLC, Json, CSV, IOUtils
CONSTANTS MaxLim
VARIABLE hist

Ends == {<<0, 8>>, <<-8, 8>>, <<-3, -1>>, <<0, 1>>, <<5, 5>>, <<1, 7>>}
Tols == {"0.0", "0.125", "0.25", "0.5", "1.0", "3.0", "16.0", "1e-20"}
Init == /\ \E e \in Ends, t \in Tols, L \in 0..MaxLim : s = BStart(R(e[1]), R(e[2]), L, R(t))
        /\ hist = <<>>
Next == /\ ~Finished
        /\ \E a \in BOOLEAN : Probe(Midpoint, a) /\ hist' = Append(hist, [v |-> RStr(Midpoint), a |-> a, w |-> RSub(s.hi, s.lo)])
Spec == Init /\ [][Next]_<<s, hist>>

Yes == {i \in 1..Len(hist) : hist[i].a}
No  == {i \in 1..Len(hist) : ~hist[i].a}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
Bracket == /\ RLe(s.lo, s.hi)
           /\ Yes # {} => s.hi = R(hist[Last(Yes)].v)
           /\ Yes = {} => s.hi = s.hi0
           /\ No # {} => s.lo = R(hist[Last(No)].v)
           /\ \A i \in Yes : RLe(s.hi, R(hist[i].v))
           /\ \A i \in No : RLe(R(hist[i].v), s.lo)
Halves  == \A i \in 2..Len(hist) : RMul(hist[i].w, R(2)) = hist[i - 1].w
Budget  == s.n = Len(hist) /\ s.n <= s.lim
Inv == Bracket /\ Halves /\ Budget
Emit == (Finished /\ "OUT" \in DOMAIN IOEnv) =>
    CSVWrite("%1$s", <<ToJson([lim |-> s.lim, tol |-> RStr(s.tol), hi0 |-> RStr(s.hi0),
                               script |-> [i \in 1..Len(hist) |-> hist[i].a],
                               lo0 |-> RStr(IF hist = <<>> THEN s.lo ELSE RSub(s.hi0, hist[1].w))])>>, IOEnv.OUT)
=============================================================================
