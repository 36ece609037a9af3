------------------------------- MODULE CutCalc -------------------------------
(***************************************************************************)
(* What one cut does to an ellipsoid, reduced to the line along its        *)
(* gradient.  Scaled so that the ellipsoid is the unit ball, a cut of      *)
(* relative depth a0 keeps the points with coordinate u <= -a0, a parallel *)
(* cut the points with -a1 <= u <= -a0.  The answer is a status and, when  *)
(* the cut is accepted, the smallest ellipsoid around the kept part:       *)
(* centre at u = -r, squared axes d(1-s) along the gradient and d across.  *)
(*                                                                         *)
(* A depth is a record [b0, par, b1]: par says that the second bound b1    *)
(* is present.  how is "bias", "central" or "q" (discrete style).          *)
(***************************************************************************)
EXTENDS Lin

One  == R(1)
Zero == R(0)
Two  == R(2)

(* Smallest ellipsoid around {|x| <= 1, u <= -a} for -1/n <= a <= 1 *)
SingleParams(n, a) ==
    LET na == RMul(R(n), a) IN
    [r |-> RDiv(RAdd(One, na), R(n + 1)),
     s |-> RDiv(RMul(Two, RAdd(One, na)), RMul(R(n + 1), RAdd(One, a))),
     d |-> RDiv(RMul(Sq(R(n)), RSub(One, Sq(a))), RSub(Sq(R(n)), One))]

(* Smallest ellipsoid around {|x| <= 1, -a1 <= u <= -a0}, for             *)
(* -1/n < a0 a1 and a0 <= a1 < 1:  with m = (a0+a1)/2, s is the smaller    *)
(* root of (n+1) m^2 s^2 - (1 + a0 a1 + 2 n m^2) s + (1 + n a0 a1) = 0,    *)
(* r = s m, and d makes both boundary circles lie on the ellipsoid.        *)
SlabParams(n, a0, a1) ==
    LET m  == RDiv(RAdd(a0, a1), Two)
        m2 == Sq(m)
        e  == RAdd(One, RMul(R(n), RMul(a0, a1)))
        hb == RDiv(RAdd(RAdd(One, RMul(a0, a1)), RMul(R(2 * n), m2)), Two)
        ds == RSub(Sq(hb), RMul(RMul(R(n + 1), m2), e))
        s  == RDiv(e, RAdd(hb, RSqrt(RMax(ds, Zero))))
        r  == RMul(s, m)
        \* tangency on the circle u = -a0: (r - a0)^2 / (1 - s) + (1 - a0^2) = d
        t0 == RAdd(RDiv(Sq(RSub(r, a0)), RSub(One, s)), RSub(One, Sq(a0)))
        t1 == RAdd(RDiv(Sq(RSub(r, a1)), RSub(One, s)), RSub(One, Sq(a1)))
    IN [r |-> r, s |-> s, d |-> IF a0 = a1            \* a disc: the limit of thin slabs
                                 THEN RDiv(RMul(R(n), RSub(One, Sq(a0))), R(n - 1))
                                 ELSE RMax(t0, t1)]

\* does a depth pass another one "for sure" when they are only known to a relative accuracy band
Gt(a, b, band) == RLt(RAdd(b, band), a)

(***************************************************************************)
(* The answers allowed for a cut: a set of cases [st, kind, ...]; more     *)
(* than one when the case distinction is within band of a tie.             *)
(*   kind "none"  : no parameters (rejected)                               *)
(*   kind "id"    : the identity update                                    *)
(*   kind "single": SingleParams at a       kind "slab": SlabParams        *)
(***************************************************************************)
Case(st, k, a0, a1) == [st |-> st, k |-> k, a0 |-> a0, a1 |-> a1]
NoSoln(a)   == Case("NoSoln", "none", a, a)
NoEffect(a) == Case("NoEffect", "id", a, a)
\* u1 when x > y surely, u2 when x < y surely, both around a tie
Split(x, y, band, U1, U2) == IF Gt(x, y, band) THEN U1 ELSE IF Gt(y, x, band) THEN U2 ELSE U1 \cup U2

\* rejected when x > y; an exact tie (the plane touches the ellipsoid) is not
Reject(x, y, band, c, U) == IF band = Zero /\ x = y THEN U ELSE Split(x, y, band, {c}, U)

SingleBias(a, band) == Reject(a, One, band, NoSoln(a), {Case("Success", "single", a, a)})
\* the shallowness test is on a sum of products of quotients: at least the rounding of 50 digits
EBand(n, band) == RMax(RMul(R(n), band), R("1e-40"))
SingleQ(n, a, band) ==
    LET shallow == RAdd(One, RMul(R(n), a)) IN
    IF Gt(shallow, Zero, EBand(n, band)) THEN SingleBias(a, band)
    ELSE IF Gt(Zero, shallow, EBand(n, band)) THEN {NoEffect(a)}
    ELSE {NoEffect(a), Case("Success", "single", a, a)}
SingleCentral == {Case("Success", "single", Zero, Zero)}

Answers(n, how, par, a0, a1, upc, band) ==
    IF ~par THEN CASE how = "bias" -> SingleBias(a0, band)
                   [] how = "q" -> SingleQ(n, a0, band)
                   [] how = "central" -> SingleCentral
    ELSE IF how = "central"
    THEN IF RLt(a1, Zero) THEN {NoSoln(a1)}
         ELSE IF ~upc THEN SingleCentral
         ELSE Split(a1, One, band, SingleCentral, {Case("Success", "slab", Zero, a1)})
    ELSE IF RLt(a1, a0) THEN {NoSoln(a0)}
    ELSE IF ~upc THEN (IF how = "bias" THEN SingleBias(a0, band) ELSE SingleQ(n, a0, band))
    ELSE IF how = "bias"
    THEN Split(a1, One, band, SingleBias(a0, band), {Case("Success", "slab", a0, a1)})
    ELSE LET e == RAdd(One, RMul(R(n), RMul(a0, a1))) IN
         Split(a1, One, band, SingleQ(n, a0, band),
         Reject(RNeg(a1), One, band, NoSoln(a0),
         IF RLt(a0, RNeg(One)) THEN  \* one plane outside: any enclosing ellipsoid
              Split(e, Zero, EBand(n, band), {Case("Success", "enclosing", a0, a1)}, {NoEffect(a0)})
         ELSE Split(e, Zero, EBand(n, band), {Case("Success", "slab", a0, a1)}, {NoEffect(a0)})))

\* The kept interval of the coordinate u
KeptLo(c) == RMax(RNeg(One), IF c.k \in {"slab", "enclosing"} THEN RNeg(c.a1) ELSE RNeg(One))
KeptHi(c) == RMin(One, RNeg(c.a0))

Params(n, c) == CASE c.k = "single" -> SingleParams(n, c.a0)
                  [] c.k = "slab" -> SlabParams(n, c.a0, c.a1)
                  [] c.k = "id" -> [r |-> Zero, s |-> Zero, d |-> One]

(***************************************************************************)
(* The ellipsoid p encloses the kept part: the quadratic                   *)
(* (u+r)^2/(1-s) + (1-u^2) is convex in u when 0 <= s < 1, so the two ends *)
(* of the kept interval decide.  Multiplied out to allow s = 1.            *)
(***************************************************************************)
EnclosesAt(p, u, tol) ==
    RLe(RAdd(Sq(RAdd(u, p.r)), RMul(RSub(One, Sq(u)), RSub(One, p.s))),
        RAdd(RMul(p.d, RSub(One, p.s)), tol))
Encloses(p, c, tol) ==
    /\ RLe(RNeg(tol), p.s) /\ RLe(p.s, RAdd(One, tol))
    /\ EnclosesAt(p, KeptLo(c), tol) /\ EnclosesAt(p, KeptHi(c), tol)
\* squared volume ratio
VolSq(n, p) == RMul(RPow(p.d, n), RSub(One, p.s))
==============================================================================
