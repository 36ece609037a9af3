------------------------------- MODULE T_Quasi -------------------------------
(* Validates recorded query histories of the quasiconvex example oracle. *)
EXTENDS Quasi, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad, last
vars == <<h, l, bad, last>>
Near(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(R("1e-13"), s))

\* result: <<faults, constraint reported or 2>>
Step(ev, out, la) ==
    IF "panic" \in DOMAIN out THEN <<{"panic"}, 2>> ELSE
    LET p == TLCEval(RV(ev.x))
        gamma == R(ev.gamma)
        V == TLCEval([c \in {0, 1} |-> Value(p, gamma, c)])
        E == TLCEval([c \in {0, 1} |-> IF ev.exact THEN R("1e-30") ELSE RMul(R("1e-14"), Scale(p, gamma, c))])
        S(c) == RLt(E[c], V[c])
        M(c) == IF ev.exact THEN S(c) ELSE RLe(RNeg(E[c]), V[c])
        o == Order(la)
        A == (IF M(o[1]) THEN {o[1]} ELSE {}) \cup (IF ~S(o[1]) /\ M(o[2]) THEN {o[2]} ELSE {}) \cup (IF ~S(o[1]) /\ ~S(o[2]) THEN {2} ELSE {})
        g == RV(out.g)
        GNear(w) == Len(g) = 2 /\ \A k \in 1..2 : Near(g[k], w[k], RMul(RAdd(R(10), RAbs(p[2])), RAbs(w[k])))
        ok == {c \in A \ {2} : GNear(Grad(p, gamma, c)) /\ Near(R(out.b0), V[c], RMul(R(10), Scale(p, gamma, c)))}
    IN IF out.imp
       THEN <<(IF 2 \in A THEN {} ELSE {"improvement reported wrongly"})
              \cup (IF /\ R(out.b0) = R(0) /\ GNear(ImpGrad(p))
                       /\ Near(R(out.gamma), Ratio(p), RMul(RAdd(R(10), RAbs(p[2])), RAbs(Ratio(p)))) THEN {} ELSE {"improvement"}), 2>>
       ELSE IF A = {2} THEN <<{"improvement missed"}, 2>>
       ELSE <<(IF ok # {} THEN {} ELSE {"cut"}) \cup (IF R(out.gamma) = gamma THEN {} ELSE {"bound changed without improvement"}),
              IF ok # {} THEN CHOOSE c \in ok : TRUE ELSE 2>>

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {} /\ last = 1
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ LET r == TLCEval(Step(Hist[h].log[l + 1], Hist[h].log[l + 1].out, last)) IN
           bad' = r[1] /\ last' = IF r[2] = 2 THEN last ELSE r[2]
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
