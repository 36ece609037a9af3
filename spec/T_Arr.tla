-------------------------------- MODULE T_Arr --------------------------------
(* Validates recorded array programs step by step. *)
EXTENDS ArrSpec, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>
Before(hh, k) == IF k = 1 THEN [i \in 1..hh.n |-> [r |-> 0, c |-> 0, d |-> <<>>]] ELSE hh.log[k - 1].regs
Reals(g) == Vec(Len(g), LAMBDA i : [r |-> g[i].r, c |-> g[i].c, d |-> RV(g[i].d)])

Close(num, e, s) ==
    IF ~RIs(e) THEN TRUE        \* (undefined operands)
    ELSE IF RLt(R("1e300"), RAbs(e)) \/ (e # R(0) /\ RLt(RAbs(e), R("1e-300"))) THEN TRUE     \* over- and underflow
    ELSE RLe(RAbs(RSub(R(num), e)), RMul(R("1e-15"), s))

ArrFaults(k, rec, want) ==
    (IF rec.r = want.a.r /\ rec.c = want.a.c /\ Len(rec.d) = Len(want.a.d) THEN {} ELSE {"shape"})
    \cup (IF Len(rec.d) # Len(want.a.d) \/ \A i \in 1..Len(rec.d) : Close(rec.d[i], want.a.d[i], want.s[i]) THEN {} ELSE {"entries"})

Faults(hh, k) ==
    LET ev == hh.log[k]  out == ev.out
        g0 == Before(hh, k)
        want == TLCEval(Apply(ev, Reals(g0)))
        panicked == "panic" \in DOMAIN out
        others(t) == \A i \in 1..hh.n : i = t \/ ev.regs[i] = g0[i] IN
    CASE want.st = "any" -> {}
      [] want.st = "refuse" -> (IF panicked THEN {} ELSE {"mismatching operands accepted"}) \cup (IF others(0) THEN {} ELSE {"refused operation changed an array"})
      [] panicked -> {"panic"}
      [] want.st = "store" -> (IF others(want.to) THEN {} ELSE {"another array changed"}) \cup ArrFaults(ev.op, ev.regs[want.to], want)
      [] want.st = "value" -> (IF others(0) THEN {} ELSE {"another array changed"})
                              \cup (IF Len(out.v) = Len(want.v) /\ \A i \in 1..Len(want.v) : Close(out.v[i], want.v[i], want.s[i]) THEN {} ELSE {"value"})
      [] want.st = "info" -> (IF others(0) THEN {} ELSE {"another array changed"}) \cup (IF out = want.i THEN {} ELSE {"answer"})

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h], l + 1)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
