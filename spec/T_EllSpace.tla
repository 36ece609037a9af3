----------------------------- MODULE T_EllSpace ------------------------------
(***************************************************************************)
(* Validates recorded histories of search spaces against EllSpace.  Every  *)
(* log entry has the projected state of all objects after the operation.   *)
(***************************************************************************)
EXTENDS EllSpace, Json, IOUtils, FiniteSets
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, bad
vars == <<h, l, bad>>

Proj(o) == Ball(RV(o.c), MScale(R(o.kappa), RM(o.m)))
\* accuracy of an implementation, relative to the natural scale of each quantity
Acc(impl) == IF impl = "stable" THEN R("1e-8") ELSE R("1e-11")
Hw(e, i) == RSqrt(e.P[i][i])

\* the smallest pivot of the correlation matrix of the shape: how far it is from degenerate
Health(e) ==
    LET n == Len(e.c)
        C == Mat(n, n, LAMBDA i, j : RDiv(e.P[i][j], RMul(Hw(e, i), Hw(e, j))))
        W == LDL(C, NotPos)
    IN IF Len(W) < n THEN Zero ELSE FoldLeft(LAMBDA m, p : RMin(m, p), One, Pivots(W))
Floor == R("1e-5")

Finite(e) == AllReal(e.c) /\ \A i \in 1..Len(e.P) : AllReal(e.P[i])

Within(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
CloseC(e, f, ref, t) == \A i \in 1..Len(e.c) :
    Within(e.c[i], f.c[i], RAdd(RMul(t, Hw(ref, i)), RMul(R("1e-15"), RMul(R(8), RAbs(f.c[i])))))
CloseP(e, f, ref, t) == \A i, j \in 1..Len(e.c) :
    Within(e.P[i][j], f.P[i][j], RMul(t, RMul(Hw(ref, i), Hw(ref, j))))
SameX(a, b) == a.c = b.c /\ a.m = b.m /\ a.kappa = b.kappa      \* literally

QScale(e, g) == Sq(RSum([i \in 1..Len(g) |-> RMul(RAbs(g[i]), Hw(e, i))]))

(* what is wrong with an accepted or rejected cut on one object *)
CutFaults(hh, ev, impl, pre, post, rawpre, rawpost, st) ==
    LET n    == Len(pre.c)
        g    == RV(ev.g)
        acc  == Acc(impl)
        t    == R(rawpost.tsq)
        par  == ev.par /\ "b1" \in DOMAIN ev
        b0   == R(ev.b0)
        b1   == IF par THEN R(ev.b1) ELSE Zero
        cases == TLCEval(CutCases(n, ev.how, par, b0, b1, t, R("1e-13")))
        mine == {c \in cases : c.st = st}
    IN
    IF ~RIs(t) THEN {"measure"} ELSE
    (IF Within(t, Width2(pre, g), RMul(acc, QScale(pre, g))) THEN {} ELSE {"measure"})
    \cup (IF mine = {} THEN {"status"}
          ELSE IF st # "Success"
          THEN IF SameX(rawpre, rawpost) THEN {} ELSE {"rejected cut changed the space"}
          ELSE
            IF ~Finite(post) THEN {"not finite"} ELSE
            (IF \E c \in mine : IF c.k = "enclosing" THEN TRUE
                                ELSE LET f == TLCEval(Apply(pre, g, t, Params(n, c))) IN
                                     CloseC(post, f, pre, acc) /\ CloseP(post, f, pre, acc)
             THEN {} ELSE {"update"})
            \cup (IF \A i, j \in 1..n : Within(post.P[i][j], post.P[j][i], RMul(R("1e-13"), RMul(Hw(pre, i), Hw(pre, j))))
                  THEN {} ELSE {"asymmetric"})
            \cup (IF impl = "nodefer" /\ R(rawpost.kappa) # One THEN {"scale not folded"} ELSE {})
            \cup (IF "zs" \notin DOMAIN ev THEN {} ELSE
                  LET hp == Health(post) IN
                  IF RLt(hp, Floor) THEN {} ELSE
                  LET L  == TLCEval(Chol(pre.P))
                      M  == TLCEval(Chol(post.P))
                      tau == TLCEval(RSqrt(Width2(pre, g)))
                      a0 == IF ev.how = "central" THEN Zero ELSE RMax(RNeg(One), RDiv(b0, tau))
                      a1 == IF par THEN RMin(One, RDiv(b1, tau)) ELSE One
                      \* rounding of the centre, in units of the half-widths
                      d == RMul(R("1e-15"), RSum([i \in 1..n |-> RDiv(RAbs(post.c[i]), Hw(post, i))]))
                      lim == RAdd(One, RDiv(RAdd(RMul(acc, R(100)), RMul(R(4), d)), hp))
                      okz(z) == /\ RLe(Dist2(post, M, RimPoint(pre, L, g, a0, z)), lim)
                                /\ RLe(Dist2(post, M, RimPoint(pre, L, g, a1, z)), lim)
                  IN IF \A k \in 1..Len(ev.zs) : okz(RV(ev.zs[k])) THEN {} ELSE {"a kept point was lost"}))

ImplOf(hh, k) == IF hh.impl[k] = "ell" /\ hh.nodefer[k] THEN "nodefer" ELSE hh.impl[k]

\* the initial ellipsoid of an object, from its constructor data
Wanted(o) ==
    LET n == Len(o.xc) IN
    Ball(RV(o.xc), CASE o.ctor = "scalar" -> MScale(R(o.kappa), Eye(n))
                     [] o.ctor = "diag" -> Diag(RV(o.diag))
                     [] o.ctor = "matrix" -> MScale(R(o.kappa), RM(o.mat))
                     [] o.ctor = "cov" -> RM(o.mat))

Faults(hh, i) ==
    LET ev == hh.log[i]
        objs == ev.objs IN
    IF ev.op = "init"
    THEN UNION {LET w == Wanted(hh.objs[k]) p == Proj(objs[k]) IN
                IF Finite(p) /\ CloseC(p, w, w, Zero) /\ CloseP(p, w, w, RMul(R("0.01"), Acc(ImplOf(hh, k)))) THEN {} ELSE {"constructor"}
                : k \in 1..Len(objs)}
    ELSE
    LET was  == hh.log[i - 1].objs
        On   == {ev.on[k] + 1 : k \in 1..Len(ev.on)}
        StOf(k) == ev.st[CHOOSE j \in 1..Len(ev.on) : ev.on[j] + 1 = k]
    IN
    UNION {
      LET raw == objs[k] IN
      IF ev.op = "clone"
      THEN IF SameX(raw, was[IF k > Len(was) THEN ev.on[1] + 1 ELSE k]) THEN {} ELSE {"copy differs"}
      ELSE IF k \notin On THEN IF SameX(raw, was[k]) /\ raw.tsq = was[k].tsq THEN {} ELSE {"another space changed"}
      ELSE IF ev.op = "setxc"
      THEN IF [raw EXCEPT !.c = was[k].c] = was[k] /\ RV(raw.c) = RV(ev.x) THEN {} ELSE {"recentring"}
      ELSE IF StOf(k) = "panic" THEN {"panic"}
      ELSE LET pre == TLCEval(Proj(was[k])) post == TLCEval(Proj(raw)) IN
           IF ~Finite(pre) \/ ~RLt(Floor, Health(pre)) THEN {}
           ELSE CutFaults(hh, ev, ImplOf(hh, k), pre, post, was[k], raw, StOf(k))
      : k \in 1..Len(objs)}
    \cup
    \* objects driven by the same operations stay the same
    (IF ~hh.twins THEN {} ELSE
     LET p1 == TLCEval(Proj(objs[1])) IN
     IF ~Finite(p1) THEN {"not finite"} ELSE
     \* each step rounds the centres once, at the magnitude they had then
     LET start == TLCEval(Proj(hh.log[1].objs[1]))
         drift(a, b) == \A q \in 1..Len(a.c) :
             RLe(RAbs(RSub(a.c[q], b.c[q])),
                 RMul(RMul(R("1e-15"), R(8 + i)), RMax(RAbs(a.c[q]), RMax(RAbs(start.c[q]), Hw(start, q))))) IN
     UNION {LET pk == TLCEval(Proj(objs[k]))
                loose == RMul(R("1e3"), RMax(Acc(ImplOf(hh, k)), Acc(ImplOf(hh, 1)))) IN
            IF ~RLt(Floor, Health(p1)) THEN {}
            ELSE (IF Finite(pk) /\ (CloseC(pk, p1, p1, loose) \/ drift(pk, p1)) /\ CloseP(pk, p1, p1, loose)
                  THEN {} ELSE {"twin spaces differ"})
                 \cup (IF ev.op # "cut" \/ hh.ties THEN {} ELSE IF ev.st[k] = ev.st[1] THEN {} ELSE {"twin statuses differ"})
            : k \in 2..Len(objs)})

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {}
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ bad' = Faults(Hist[h], l + 1)
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
