------------------------------- MODULE BSearch -------------------------------
(***************************************************************************)
(* Binary search for the threshold of a probe over an interval of reals.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, HP

VARIABLE s

BStart(lo, hi, lim, tol) == [lo |-> lo, hi |-> hi, hi0 |-> hi, lim |-> lim, tol |-> tol, n |-> 0]

HalfWidth == RDiv(RSub(s.hi, s.lo), R(2))
Midpoint  == RAdd(s.lo, HalfWidth)
Narrow    == RLt(HalfWidth, s.tol)
Finished  == Narrow \/ s.n = s.lim

\* a probe at v (the midpoint) answers a
Probe(v, a) == s' = [s EXCEPT !.n = @ + 1, !.hi = IF a THEN v ELSE @, !.lo = IF a THEN @ ELSE v]

Outcome == [moved |-> s.hi # s.hi0, n |-> s.n, lo |-> s.lo, hi |-> s.hi]
=============================================================================
