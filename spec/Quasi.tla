-------------------------------- MODULE Quasi --------------------------------
(***************************************************************************)
(* The quasiconvex example: maximise s / e^l over s^2 <= l.  A query is a  *)
(* point (s, l) and a bound gamma; the constraints s^2 - l <= 0 and        *)
(* gamma e^l - s <= 0 are checked in rotation, starting after the one      *)
(* reported last (`last`, the state of the oracle).                        *)
(***************************************************************************)
EXTENDS Trans

Value(p, gamma, c) == IF c = 0 THEN RSub(Sq(p[1]), p[2]) ELSE RSub(RMul(gamma, RExp(p[2])), p[1])
Scale(p, gamma, c) == IF c = 0 THEN RAdd(Sq(p[1]), RAbs(p[2])) ELSE RAdd(RMul(RAbs(gamma), RMul(RAdd(R(1), RAbs(p[2])), RExp(p[2]))), RAbs(p[1]))
Grad(p, gamma, c)  == IF c = 0 THEN <<RMul(R(2), p[1]), R(-1)>> ELSE <<R(-1), RMul(gamma, RExp(p[2]))>>
Ratio(p)           == RDiv(p[1], RExp(p[2]))
ImpGrad(p)         == <<R(-1), p[1]>>
Order(la)          == IF la = 1 THEN <<0, 1>> ELSE <<1, 0>>
==============================================================================
