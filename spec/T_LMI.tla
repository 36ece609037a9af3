-------------------------------- MODULE T_LMI --------------------------------
(* Validates recorded query histories of the matrix-inequality oracles. *)
EXTENDS LMI, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>

One(out, a, x, wits) ==
    IF "panic" \in DOMAIN out THEN {"panic"}
    ELSE IF a.kind = "feas" THEN (IF out.feas THEN {} ELSE {"feasible point rejected"})
    ELSE IF a.kind = "cut" /\ out.feas THEN {"infeasible point accepted"}
    ELSE IF out.feas THEN {}
    ELSE LET g == TLCEval(RV(out.g))  b0 == R(out.b0) IN
      (IF RLe(R(0), b0) THEN {} ELSE {"negative depth"})
      \cup (IF a.kind = "cut"
            THEN (IF RLe(RAbs(RSub(b0, a.b0)), RMul(R("1e-12"), a.bs)) THEN {} ELSE {"depth"})
                 \cup (IF \A k \in 1..Len(g) : RLe(RAbs(RSub(g[k], a.g[k])), RMul(a.tol, a.gs[k])) THEN {} ELSE {"gradient"})
            ELSE {})
      \cup (IF \A z \in wits : RLe(Lhs(g, b0, x, z), RMul(R("1e-6"), RAdd(RAbs(b0), RSum([k \in 1..Len(g) |-> RMul(RAbs(g[k]), RAdd(RAbs(x[k]), RAbs(z[k])))])))) THEN {} ELSE {"cuts off a feasible point"})

\* the feasible points among the given ones
Feasible(F, B, general, zs) == {z \in {RV(zs[i]) : i \in 1..Len(zs)} : Answer(F, B, general, z, FALSE).kind = "feas"}

Faults(hh, ev) ==
    LET F == TLCEval(Vec(Len(hh.f), LAMBDA k : RM(hh.f[k])))
        general == "b" \in DOMAIN hh
        B == IF general THEN TLCEval(RM(hh.b)) ELSE <<>>
        x == TLCEval(RV(ev.x))
        a == TLCEval(Answer(F, B, general, x, ev.exact))
        zs == TLCEval(Feasible(F, B, general, hh.zs))
    IN UNION {One(ev.outs[i], a, x, zs) : i \in 1..Len(ev.outs)}
       \cup (IF \A i \in 1..Len(ev.outs) : "panic" \notin DOMAIN ev.outs[i] /\ (a.kind = "tie" \/ ev.outs[i].feas = ev.outs[1].feas) THEN {} ELSE {"implementations disagree"})

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h], Hist[h].log[l + 1])
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
