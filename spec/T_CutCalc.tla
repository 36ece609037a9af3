----------------------------- MODULE T_CutCalc -------------------------------
(* Validates recorded calls of the cut calculators against CutCalc. *)
EXTENDS CutCalc, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>

How(fn) == CASE fn \in {"sp_bias", "p_bias", "bias", "core_pbias", "core_pbias_fast", "core_pbias_old", "core_bias", "core_bias_fast"} -> "bias"
             [] fn \in {"sp_q", "p_q", "q"} -> "q"
             [] OTHER -> "central"
Core(fn) == fn \in {"core_pbias", "core_pbias_fast", "core_pbias_old", "core_bias", "core_bias_fast", "core_central", "core_pcentral"}
Takes2(fn) == fn \in {"sp_bias", "sp_central", "sp_q", "p_bias", "p_central", "p_q", "core_pbias", "core_pbias_fast", "core_pbias_old", "core_pcentral"}

\* the old parallel formula loses half the digits for thin slabs
PTol(fn) == IF fn = "core_pbias_old" THEN R("1e-6") ELSE R("1e-11")
Near(x, y, t) == RClose(x, y, t, R("0.1"))

Fits(ev, p, c, n) ==
    LET t == PTol(ev.fn) IN
    CASE c.k = "none" -> TRUE
      [] c.k = "enclosing" -> Encloses(p, c, R("1e-10")) /\ RLe(Zero, p.d)
      [] OTHER -> LET q == Params(n, c)
                      \* thin slabs: 1 - s is a small difference, whatever the formula
                      u == IF c.k = "slab" /\ RLt(q.s, One) THEN RMin(R("1e-5"), RMax(t, RDiv(R("1e-14"), RSub(One, q.s)))) ELSE t
                  IN Near(p.r, q.r, u) /\ Near(p.s, q.s, u) /\ Near(p.d, q.d, u)

Faults(hh, ev) ==
    IF "panic" \in DOMAIN ev.out THEN {"panic"} ELSE
    LET tau  == TLCEval(RSqrt(R(ev.tsq)))
        par  == Takes2(ev.fn) /\ "b1" \in DOMAIN ev
        a0   == TLCEval(RDiv(R(ev.b0), tau))
        a1   == TLCEval(IF par THEN RDiv(R(ev.b1), tau) ELSE Zero)
        band == IF ev.exact THEN Zero ELSE R("1e-13")
        p    == [r |-> TLCEval(RDiv(R(ev.out.rho), tau)), s |-> R(ev.out.sigma), d |-> R(ev.out.delta)]
        ans  == TLCEval(IF Core(ev.fn)
                THEN {Case("Success", IF par THEN "slab" ELSE "single",
                           IF How(ev.fn) = "central" THEN Zero ELSE a0, a1)}
                ELSE Answers(hh.n, How(ev.fn), par, a0, a1, hh.upc, band))
        st   == {c \in ans : c.st = ev.out.st}
        \* classification only: the parameters matter where they are those of another call
        like(c) == CASE c.k = "id" -> p = [r |-> Zero, s |-> Zero, d |-> One]
                     [] c.k = "single" /\ "twin" \in DOMAIN ev.out ->
                          LET w == ev.out.twin IN w.st = "Success" /\ Near(p.r, RDiv(R(w.rho), tau), PTol(ev.fn))
                              /\ Near(p.s, R(w.sigma), PTol(ev.fn)) /\ Near(p.d, R(w.delta), PTol(ev.fn))
                     [] OTHER -> TRUE
    IN IF st = {} THEN {"status"}
       ELSE IF hh.classify THEN (IF \E c \in st : like(c) THEN {} ELSE {"not the update of the single cut, or not the identity"})
       ELSE IF ~\E c \in st : Fits(ev, p, c, hh.n) THEN {"parameters"} ELSE {}

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Hist[h].log) /\ bad = {}
        /\ bad' = Faults(Hist[h], Hist[h].log[l + 1])
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ (Hist[h].log = <<>> => FALSE)
==============================================================================
