-------------------------------- MODULE T_Svm --------------------------------
(* Validates recorded queries of the SVM oracle. *)
EXTENDS Svm, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>
Scale(X, q, i) == RAdd(RSum([j \in 1..Len(X[i]) |-> RAbs(RMul(X[i][j], q[j]))]), RAbs(q[Len(q)]))

Faults(hh, ev, out) ==
    IF "panic" \in DOMAIN out THEN {"panic"} ELSE
    LET X == TLCEval(RM(hh.data))  y == hh.labels
        q == TLCEval(RV(ev.x))
        m == TLCEval(Margins(X, y, q))
        eps == IF ev.exact THEN R(0) ELSE RMul(R("1e-13"), RAdd(R(1), MaxAbs(Vec(Len(X), LAMBDA i : Scale(X, q, i)))))
        sureSep == \A i \in 1..Len(m) : RLe(RAdd(R(1), eps), m[i])
        maySep == \A i \in 1..Len(m) : RLe(RSub(R(1), eps), m[i])
        null == /\ R(out.b0) = R(0) /\ R(out.gamma) = R(0) /\ Len(out.g) = Len(q)
                /\ \A j \in 1..Len(q) : R(out.g[j]) = R(0)
        at(i) == /\ RLe(RAbs(RSub(R(out.gamma), m[i])), eps) /\ out.b0 = out.gamma
                 /\ RV(out.g) = Dir(X, y, i)
        cands == IF ev.exact THEN {FirstMin(m)} ELSE {i \in 1..Len(m) : \A j \in 1..Len(m) : RLe(m[i], RAdd(m[j], RAdd(eps, eps)))}
    IN IF sureSep THEN (IF null THEN {} ELSE {"separation not recognised"})
       ELSE IF maySep /\ null THEN {}
       ELSE IF \E i \in cands : at(i) THEN {} ELSE {"not a worst-margin sample"}

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h], Hist[h].log[l + 1], Hist[h].log[l + 1].out)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
