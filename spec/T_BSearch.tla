----------------------------- MODULE T_BSearch ------------------------------
(***************************************************************************)
(* Validates recorded binary searches.  A run with exact = TRUE works on   *)
(* dyadic numbers, where floating point is exact and so is the comparison; *)
(* otherwise midpoints and the stopping test may be off by a rounding.     *)
(***************************************************************************)
EXTENDS BSearch, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
Log == Hist[h].log
Ev  == Log[l + 1]
Ulp == IF Hist[h].exact THEN R(0) ELSE R("4e-16")
Mag == RMax(RMax(RAbs(s.lo), RAbs(s.hi)), R("1e-300"))
Init == h \in 1..Len(Hist) /\ l = 0
        /\ s = BStart(R(Hist[h].lo), R(Hist[h].hi), Hist[h].lim, R(Hist[h].tol))
Ordered == RLe(R(Hist[h].lo), R(Hist[h].hi))
SurelyNarrow    == RLt(RAdd(HalfWidth, RMul(Ulp, Mag)), s.tol)
PossiblyNarrow  == RLt(RSub(HalfWidth, RMul(Ulp, Mag)), s.tol)
TProbe == /\ Ev.e = "probe" /\ "over" \notin DOMAIN Ev /\ Ordered
          /\ s.n < s.lim /\ ~SurelyNarrow
          /\ RLe(RAbs(RSub(R(Ev.v), Midpoint)), RMul(Ulp, Mag))
          /\ Probe(R(Ev.v), Ev.a)
TRet == /\ Ev.e = "ret" /\ l + 1 = Len(Log) /\ UNCHANGED s
        /\ IF ~Ordered THEN "panic" \in DOMAIN Ev
           ELSE /\ "panic" \notin DOMAIN Ev
                /\ PossiblyNarrow \/ s.n = s.lim
                /\ Ev.moved = Outcome.moved /\ Ev.n = Outcome.n
                /\ R(Ev.lo) = Outcome.lo /\ R(Ev.hi) = Outcome.hi
Next == l < Len(Log) /\ (TProbe \/ TRet) /\ l' = l + 1 /\ UNCHANGED h
Accepted == /\ l < Len(Log) => ENABLED Next
            /\ l = Len(Log) => l > 0 /\ Log[l].e = "ret"
=============================================================================
