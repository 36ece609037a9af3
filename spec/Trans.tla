-------------------------------- MODULE Trans --------------------------------
(***************************************************************************)
(* Exponential, logarithm and cosine by series, to about 40 digits.        *)
(***************************************************************************)
EXTENDS Lin

Pi == R("3.14159265358979323846264338327950288419716939937510582097")

\* sum of t_k with t_0 = first and t_k = t_{k-1} * Ratio(k)
Series(first, Ratio(_), terms) ==
    FoldLeft(LAMBDA acc, k : LET t == TLCEval(RMul(acc[1], Ratio(k))) IN <<t, RAdd(acc[2], t)>>,
             <<first, first>>, [k \in 1..terms |-> k])[2]

RECURSIVE SqTimes(_, _)
SqTimes(x, k) == IF k = 0 THEN x ELSE SqTimes(TLCEval(RMul(x, x)), k - 1)
RExp(x) == LET y == TLCEval(RDiv(x, R(4096))) IN
           SqTimes(TLCEval(Series(R(1), LAMBDA k : RDiv(y, R(k)), 24)), 12)

RECURSIVE SqrtTimes(_, _)
SqrtTimes(x, k) == IF k = 0 THEN x ELSE SqrtTimes(TLCEval(RSqrt(x)), k - 1)
\* ln x = 2^16 ln x^(1/2^16), and ln y = 2 atanh((y-1)/(y+1))
RLn(x) == IF ~RLt(R(0), x) THEN R("undefined") ELSE
          LET y == TLCEval(SqrtTimes(x, 16))
              z == TLCEval(RDiv(RSub(y, R(1)), RAdd(y, R(1))))
              z2 == TLCEval(RMul(z, z)) IN
          IF x = R(1) THEN R(0) ELSE
          RMul(R(131072), RMul(z, FoldLeft(LAMBDA acc, k : RAdd(RDiv(R(1), R(2 * (12 - k) + 1)), RMul(z2, acc)), R(0), [k \in 1..12 |-> k])))

RCos(x) == LET n == RFloor(RAdd(RDiv(x, RMul(R(2), Pi)), R("0.5")))
               y == TLCEval(RSub(x, RMul(RMul(R(2), Pi), R(n))))
               y2 == TLCEval(RNeg(RMul(y, y))) IN
           Series(R(1), LAMBDA k : RDiv(y2, R(2 * k * (2 * k - 1))), 30)
==============================================================================
