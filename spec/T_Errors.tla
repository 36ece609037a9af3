------------------------------ MODULE T_Errors -------------------------------
(* Validates recorded error values and options. *)
EXTENDS Errors, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>
Has(r, k) == k \in DOMAIN r
Named(e, o) == {f \in Present(e) : Has(o.named, f) /\ o.named[f]} = Present(e)
Faults(ev, o) ==
    IF Has(o, "panic") THEN {"panic"}
    ELSE IF ev.op = "pair"
    THEN (IF o.eq = Same(ev.a, ev.b) THEN {} ELSE {"equality"})
         \cup (IF o.copy THEN {} ELSE {"a copy differs"})
         \cup (IF Named(ev.a, o) THEN {} ELSE {"message"})
         \cup (IF o.samemsg => ev.a.which = ev.b.which THEN {} ELSE {"different kinds read the same"})
    ELSE IF ev.op = "default" THEN (IF o = DefaultOptions THEN {} ELSE {"defaults"})
    ELSE (IF o = NewOptions(ev.max_iters, ev.tolerance) THEN {} ELSE {"options"})
Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h].log[l + 1], Hist[h].log[l + 1].out)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ ~("panic" \in DOMAIN Hist[h])
==============================================================================
