------------------------------ MODULE MC_Quasi -------------------------------
(***************************************************************************)
(* On a grid of points and non-negative bounds: a violated constraint's    *)
(* cut keeps every grid point that is feasible for the bound, an           *)
(* improvement raises the bound, and the improving cut keeps every better  *)
(* point.  The rotation reports each of two persistently violated          *)
(* constraints in turn.                                                    *)
(***************************************************************************)
EXTENDS Quasi
CONSTANTS G
VARIABLES i, j, g, last, done
vars == <<i, j, g, last, done>>
Bounds == <<"0", "0.1", "0.3", "0.43", "1">>
Pt(a, b) == <<RDiv(R(2 * a), R(G)), RDiv(R(2 * b), R(G))>>
Points == {Pt(a, b) : a, b \in -G..G}
Init == i \in -G..G /\ j \in -G..G /\ g \in 1..Len(Bounds) /\ last = 1 /\ done = 0
Bad(p, gamma, c) == RLt(R(0), Value(p, gamma, c))
Report(p, gamma, la) == LET o == Order(la) IN IF Bad(p, gamma, o[1]) THEN o[1] ELSE IF Bad(p, gamma, o[2]) THEN o[2] ELSE 2
Next == done < 2 /\ done' = done + 1 /\ UNCHANGED <<i, j, g>>
        /\ LET r == Report(Pt(i, j), R(Bounds[g]), last) IN last' = IF r = 2 THEN last ELSE r
Tiny == R("1e-30")
Valid(p, gamma) ==
    LET Z == TLCEval({z \in Points : ~Bad(z, gamma, 0) /\ ~Bad(z, gamma, 1)}) IN
    /\ \A c \in {0, 1} : Bad(p, gamma, c) =>
          \A z \in Z : RLe(RAdd(Value(p, gamma, c), RDot(Grad(p, gamma, c), VSub(z, p))), Tiny)
    /\ (~Bad(p, gamma, 0) /\ ~Bad(p, gamma, 1)) =>
          /\ RLe(gamma, RAdd(Ratio(p), Tiny))
          /\ \A z \in Z : RLe(Ratio(p), Ratio(z)) => RLe(RDot(ImpGrad(p), VSub(z, p)), Tiny)
Inv == done = 1 => Valid(Pt(i, j), R(Bounds[g]))
Turn == [][(done = 1 /\ Bad(Pt(i, j), R(Bounds[g]), 0) /\ Bad(Pt(i, j), R(Bounds[g]), 1)) => last' # last]_vars
==============================================================================
