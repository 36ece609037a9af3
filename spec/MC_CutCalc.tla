----------------------------- MODULE MC_CutCalc ------------------------------
(***************************************************************************)
(* The parameters prescribed by CutCalc enclose the kept part and no       *)
(* enclosing ellipsoid of a grid of competitors is smaller; on a grid of   *)
(* dimensions and depths (in 1/Q).                                         *)
(***************************************************************************)
EXTENDS CutCalc
CONSTANTS Dims, Q, Grid
VARIABLES n, how, par, i0, i1, upc, done
vars == <<n, how, par, i0, i1, upc, done>>
Tol == R("1e-40")

Init == /\ n \in Dims /\ how \in {"bias", "central", "q"} /\ par \in BOOLEAN /\ upc \in BOOLEAN
        /\ i0 \in -(Q + 2)..(Q + 2) /\ i1 \in -(Q + 2)..(Q + 2) /\ done = FALSE
        /\ ~par => i1 = 0
        /\ how = "bias" => i0 >= 0
        /\ how = "central" => i0 = 0
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, how, par, i0, i1, upc>>

A0 == RDiv(R(i0), R(Q))
A1 == RDiv(R(i1), R(Q))
Ans == Answers(n, how, par, A0, A1, upc, Zero)
KLo(c) == IF par /\ upc /\ how # "central" /\ c.k = "none" THEN RNeg(A1) ELSE KeptLo(c)

\* the exact kept interval of the cut itself, -1 <= u <= 1
TrueHi == IF how = "central" THEN Zero ELSE RMin(One, RNeg(A0))
TrueLo == IF par THEN RMax(RNeg(One), RNeg(A1)) ELSE RNeg(One)
NothingKept == RLt(TrueHi, TrueLo) \/ (how # "central" /\ RLt(One, A0))

Sound(c) == LET p == Params(n, c)
                lo == IF upc THEN TrueLo ELSE RNeg(One) IN
            /\ EnclosesAt(p, lo, Tol) /\ EnclosesAt(p, TrueHi, Tol)
            /\ RLe(Zero, p.s) /\ RLe(p.s, RAdd(One, Tol)) /\ RLe(Zero, p.d)
            /\ RLe(VolSq(n, p), RAdd(One, Tol))

\* competitors: centre -rr, squared across-axis bb, the least squared along-axis that encloses both ends
Competes(c, kr, kb) ==
    LET p  == Params(n, c)
        rr == RMul(RAdd(One, RDiv(R(kr - Grid), R(10 * Grid))), p.r)
        rr2 == RAdd(p.r, RDiv(R(kr - Grid), R(4 * Grid)))
        bb == RMul(RAdd(One, RDiv(R(kb - Grid), R(3 * Grid))), p.d)
        lo == IF upc THEN TrueLo ELSE RNeg(One)
        axis(x, u) == RDiv(Sq(RAdd(u, x)), RSub(One, RDiv(RSub(One, Sq(u)), bb)))
        legal(u) == RLt(RSub(One, Sq(u)), bb)
        beats(x) == /\ legal(lo) /\ legal(TrueHi)
                    /\ LET aa == RMax(axis(x, lo), axis(x, TrueHi)) IN
                       \* an elongated competitor may fail between the ends
                       LET v == RDiv(RMul(x, bb), RSub(aa, bb)) IN
                       /\ RLt(bb, aa) /\ RLe(lo, v) /\ RLe(v, TrueHi) =>
                             RLe(RAdd(RDiv(Sq(RAdd(v, x)), aa), RDiv(RSub(One, Sq(v)), bb)), One)
                       /\ RLt(RMul(aa, RPow(bb, n - 1)), RSub(VolSq(n, p), Tol))
    IN beats(rr) \/ beats(rr2)
Minimal(c) == \A kr, kb \in 0..2 * Grid : ~Competes(c, kr, kb)

\* planes that meet the ellipsoid, and a kept part with interior
Inv == done =>
  \A c \in Ans :
    /\ c.st = "NoSoln" => NothingKept
    /\ NothingKept /\ upc => c.st = "NoSoln"
    /\ c.st = "NoEffect" => RLe(One, VolSq(n, Params(n, c)))
    /\ (c.st # "NoSoln" /\ c.k # "enclosing" /\ ~(c.k = "slab" /\ c.a0 = c.a1)) => Sound(c)
InvMin == done =>
  \A c \in Ans :
    (c.st # "NoSoln" /\ c.k # "enclosing" /\ ~(c.k = "slab" /\ c.a0 = c.a1) /\ RLt(A0, One)
     /\ ~(par /\ how = "q" /\ RLt(A0, RNeg(One)))) => Minimal(c)     \* first plane in front of the ellipsoid: sound only
\* a slab whose second plane touches is the single cut; central is bias at depth zero
Agree == done /\ how = "bias" /\ i0 < Q =>
    LET p == SingleParams(n, A0)  q == SlabParams(n, A0, One) IN
    RClose(p.r, q.r, Tol, One) /\ RClose(p.s, q.s, Tol, One) /\ RClose(p.d, q.d, Tol, One)
==============================================================================
