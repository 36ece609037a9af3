------------------------------ MODULE T_MaxCut -------------------------------
(* Validates recorded query histories of the max-cut oracle. *)
EXTENDS MaxCut, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>
Near(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(R("1e-12"), s))
Is(num, v, raw) == IF RIs(v) THEN R(num) = v ELSE num = raw

Faults(hh, ev, out) ==
    IF "panic" \in DOMAIN out THEN {"panic"} ELSE
    LET W == TLCEval(RM(hh.w))
        s == TLCEval(Side(RV(ev.x)))
        sc == TLCEval(Score(W, s))
        G == TLCEval(GradOf(W, s))
        tot == RSum([i \in 1..Len(W) |-> RSum([j \in 1..Len(W) |-> RAbs(W[i][j])])])
        eps == IF hh.exact THEN R(0) ELSE RMul(R("1e-12"), tot)
        gamma == R(ev.gamma)
        low == ev.gamma = "-inf"
        sure == low \/ RLt(RAdd(gamma, eps), sc)
        maybe == low \/ IF hh.exact THEN RLt(gamma, sc) ELSE RLe(RSub(gamma, eps), sc) IN
    (IF (out.imp => maybe) /\ (sure => out.imp) THEN {} ELSE {"improvement"})
    \cup (IF Len(out.g) = Len(G) /\ \A i \in 1..Len(G) : RLe(RAbs(RSub(R(out.g[i]), G[i])), RMul(R(4), eps)) THEN {} ELSE {"gradient"})
    \cup (IF out.imp
          THEN IF RLe(RAbs(RSub(R(out.gamma), sc)), eps) /\ RAdd(R(out.gamma), R(out.b0)) = R(0) THEN {} ELSE {"score"}
          ELSE IF out.gamma = ev.gamma /\ out.b0 = ev.gamma THEN {} ELSE {"bound or depth without improvement"})

Refused == "panic" \in DOMAIN Hist[h]
Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ ~Refused /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h], Hist[h].log[l + 1], Hist[h].log[l + 1].out)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ Refused = Hist[h].refuse
==============================================================================
