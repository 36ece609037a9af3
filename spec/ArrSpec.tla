------------------------------- MODULE ArrSpec -------------------------------
(***************************************************************************)
(* The array type: a vector of n entries is [r |-> n, c |-> 0, d], an      *)
(* r x c matrix is [r, c, d] with its entries in row-major order.  A       *)
(* program runs over a register file `regs`; Apply gives the outcome of    *)
(* one operation:                                                          *)
(*   [st |-> "store", to, a, s]  register `to` becomes a (s: magnitude of  *)
(*                               the terms each entry is computed from)    *)
(*   [st |-> "value", v, s]      scalars                                   *)
(*   [st |-> "info", i]          other answers                             *)
(*   [st |-> "refuse"]           the operands do not fit                   *)
(*   [st |-> "any"]              not specified                             *)
(* Nothing but the register stored to ever changes.                        *)
(***************************************************************************)
EXTENDS Trans

MkV(d)       == [r |-> Len(d), c |-> 0, d |-> d]
MkM(r, c, d) == [r |-> r, c |-> c, d |-> d]
Is2(a)       == a.c > 0
Same(a, d)   == [r |-> a.r, c |-> a.c, d |-> d]
Map1(a, F(_)) == Vec(Len(a.d), LAMBDA i : F(a.d[i]))
Map2(a, b, F(_, _)) == Vec(Len(a.d), LAMBDA i : F(a.d[i], b.d[i]))
Fill(n, v)   == Vec(n, LAMBDA i : v)
At(a, i, j)  == a.d[(i - 1) * a.c + j]
Abs(d)       == Vec(Len(d), LAMBDA i : RAbs(d[i]))
Store(to, a) == [st |-> "store", to |-> to, a |-> a, s |-> Abs(a.d)]
StoreS(to, a, s) == [st |-> "store", to |-> to, a |-> a, s |-> s]
Val(v)       == [st |-> "value", v |-> <<v>>, s |-> <<RAbs(v)>>]
Refuse       == [st |-> "refuse"]
Unspecified  == [st |-> "any"]
Grid(rows, cols, F(_, _)) == Vec(rows * cols, LAMBDA k : F(1 + ((k - 1) \div cols), 1 + ((k - 1) % cols)))
Within(a, m) == \A i \in 1..Len(a.d) : RIs(a.d[i]) /\ RLe(RAbs(a.d[i]), R(m))
Numbers(a) == \A i \in 1..Len(a.d) : RIs(a.d[i])
Plain(a) == a.c > 0 \/ Len(a.d) = a.r      \* not a matrix without columns
Symmetric(a) == a.r = a.c /\ \A i, j \in 1..a.r : At(a, i, j) = At(a, j, i)
Rep(n, s, x) == Vec(n, LAMBDA i : RAdd(s, RAbs(x[i])))

Sizes(x, y) == RAdd(RAbs(x), RAbs(y))
None(x, y) == R(0)
Elementwise(to, a, b, F(_, _), Mag(_, _)) ==
    IF Len(a.d) # Len(b.d) THEN Refuse
    ELSE IF a.r # b.r \/ a.c # b.c THEN Unspecified
    ELSE StoreS(to, Same(a, Map2(a, b, F)), Map2(a, b, LAMBDA x, y : RAdd(RAbs(F(x, y)), Mag(x, y))))

\* operands: op is the recorded operation (numerals), g the register file of reals, indices from zero
Apply(op, g) ==
    LET X == g[op.x + 1]  Y == g[op.y + 1]  S == R(op.s)
        k == op.op
        inPlace == op.x + 1
        to == op.to + 1
        n == op.n
        sc(F(_)) == Store(IF k \in {"mul_s", "div_s"} THEN inPlace ELSE to, Same(X, Map1(X, F)))
    IN
    CASE ~Plain(X) \/ ~Plain(Y) -> Unspecified
      [] k = "new"   -> Store(to, MkV(Fill(n, R(0))))
      [] k = "ones"  -> Store(to, MkV(Fill(n, R(1))))
      [] k = "zeros" -> Store(to, MkM(op.r, op.c, Fill(op.r * op.c, R(0))))
      [] k = "full"  -> Store(to, MkM(op.r, op.c, Fill(op.r * op.c, S)))
      [] k = "eye"   -> Store(to, MkM(n, n, IF n = 0 THEN <<>> ELSE Grid(n, n, LAMBDA i, j : IF i = j THEN R(1) ELSE R(0))))
      [] k \in {"from", "from_slice", "into"} -> Store(to, MkV(RV(op.v)))
      [] k = "from_fn" -> StoreS(to, MkV(Vec(n, LAMBDA i : RAdd(RMul(R(op.a), R(i - 1)), R(op.b)))),
                                 Vec(n, LAMBDA i : RAdd(RAbs(RMul(R(op.a), R(i - 1))), RAbs(R(op.b)))))
      [] k \in {"from_shape_vec", "with_data"} -> IF Len(op.v) = op.r * op.c THEN Store(to, MkM(op.r, op.c, RV(op.v))) ELSE Refuse
      [] k = "from_diag" -> IF Is2(X) THEN Refuse
                            ELSE LET m == Len(X.d) IN Store(to, MkM(m, m, IF m = 0 THEN <<>> ELSE Grid(m, m, LAMBDA i, j : IF i = j THEN X.d[i] ELSE R(0))))
      [] k = "row"  -> IF ~Is2(X) \/ op.i >= X.r THEN Refuse ELSE Store(to, MkV(Vec(X.c, LAMBDA j : At(X, op.i + 1, j))))
      [] k = "same_shape" -> Store(to, Same(X, Fill(Len(X.d), R(0))))
      [] k = "clone" -> Store(to, X)
      [] k = "linspace" ->
            LET a == R(op.a)  b == R(op.b) IN
            StoreS(to, MkV(Vec(n, LAMBDA i : IF i = 1 THEN a ELSE RAdd(a, RDiv(RMul(RSub(b, a), R(i - 1)), R(n - 1))))),
                   Vec(n, LAMBDA i : RAdd(RMul(R(4), RAbs(a)), RMul(R(4), RAbs(b)))))
      [] k = "arange" ->
            LET a == R(op.a)  b == R(op.b)  m == IF RLt(a, b) THEN RFloor(RSub(b, a)) ELSE 0 IN
            StoreS(to, MkV(Vec(m, LAMBDA i : RAdd(a, R(i - 1)))), Vec(m, LAMBDA i : RAdd(RAbs(a), R(i))))
      [] k = "get" -> IF ~Is2(X) THEN Unspecified ELSE IF op.i >= X.r THEN Refuse ELSE IF op.j >= X.c THEN Unspecified
                      ELSE LET e == At(X, op.i + 1, op.j + 1) IN [st |-> "value", v |-> <<e, e, e, e>>, s |-> <<R(0), R(0), R(0), R(0)>>]
      [] k = "get1" -> IF op.i >= Len(X.d) THEN Refuse ELSE Val(X.d[op.i + 1])
      [] k \in {"set", "set_at", "set_idx2"} ->
            IF ~Is2(X) THEN Unspecified ELSE IF op.i >= X.r THEN Refuse ELSE IF op.j >= X.c THEN Unspecified
            ELSE Store(inPlace, Same(X, [X.d EXCEPT ![op.i * X.c + op.j + 1] = S]))
      [] k = "set_idx" -> IF op.i >= Len(X.d) THEN Refuse ELSE Store(inPlace, Same(X, [X.d EXCEPT ![op.i + 1] = S]))
      [] k = "shape" -> [st |-> "info", i |-> [len |-> Len(X.d), size |-> Len(X.d), rows |-> X.r, cols |-> X.c, m |-> Is2(X), e |-> Len(X.d) = 0, it |-> Len(X.d)]]
      [] k = "eq"    -> IF ~Numbers(X) \/ ~Numbers(Y) THEN Unspecified ELSE [st |-> "info", i |-> [b |-> X = Y]]
      [] k = "add_s" -> StoreS(inPlace, Same(X, Map1(X, LAMBDA x : RAdd(x, S))), Map1(X, LAMBDA x : Sizes(x, S)))
      [] k = "sub_s" -> StoreS(inPlace, Same(X, Map1(X, LAMBDA x : RSub(x, S))), Map1(X, LAMBDA x : Sizes(x, S)))
      [] k \in {"mul_s", "ref_mul_s", "own_mul_s", "s_mul_ref", "s_mul_own"} -> sc(LAMBDA x : RMul(x, S))
      [] k \in {"div_s", "ref_div_s", "own_div_s"} -> IF S = R(0) THEN Unspecified ELSE sc(LAMBDA x : RDiv(x, S))
      [] k \in {"iter_mut", "data_mut"} -> StoreS(inPlace, Same(X, Map1(X, LAMBDA x : RSub(S, x))), Map1(X, LAMBDA x : Sizes(x, S)))
      [] k \in {"neg_ref", "neg_own"} -> sc(LAMBDA x : RNeg(x))
      [] k = "add_assign" -> Elementwise(inPlace, X, Y, RAdd, Sizes)
      [] k = "sub_assign" -> Elementwise(inPlace, X, Y, RSub, Sizes)
      [] k \in {"own_add", "ref_add"} -> Elementwise(to, X, Y, RAdd, Sizes)
      [] k \in {"own_sub", "ref_sub"} -> Elementwise(to, X, Y, RSub, Sizes)
      [] k \in {"own_mul", "ref_mul"} -> Elementwise(to, X, Y, RMul, None)
      [] k = "dot_mv" ->
            IF ~Is2(X) \/ Is2(Y) \/ X.c # Len(Y.d) THEN Refuse
            ELSE StoreS(to, MkV(Vec(X.r, LAMBDA i : RSum([j \in 1..X.c |-> RMul(At(X, i, j), Y.d[j])]))),
                        Vec(X.r, LAMBDA i : RMul(R(X.c), RSum([j \in 1..X.c |-> RAbs(RMul(At(X, i, j), Y.d[j]))]))))
      [] k = "dot" ->
            IF Is2(X) \/ Is2(Y) \/ Len(X.d) # Len(Y.d) THEN Refuse
            ELSE [st |-> "value", v |-> <<RDot(X.d, Y.d)>>, s |-> <<RMul(R(Len(X.d)), RDot(Abs(X.d), Abs(Y.d)))>>]
      [] k = "outer" ->
            IF Is2(X) \/ Is2(Y) THEN Refuse
            ELSE IF Len(Y.d) = 0 THEN Unspecified
            ELSE LET p == Len(X.d)  q == Len(Y.d) IN
                 Store(to, MkM(p, q, IF p * q = 0 THEN <<>> ELSE Grid(p, q, LAMBDA i, j : RMul(X.d[i], Y.d[j]))))
      [] k = "rank1" ->
            IF ~Is2(X) \/ Is2(Y) \/ X.r # Len(Y.d) THEN Refuse
            ELSE IF ~Symmetric(X) THEN Unspecified
            ELSE StoreS(inPlace, Same(X, Grid(X.r, X.c, LAMBDA i, j : RAdd(At(X, i, j), RMul(S, RMul(Y.d[i], Y.d[j]))))),
                        Grid(X.r, X.c, LAMBDA i, j : RMul(R(4), RAdd(RAbs(At(X, i, j)), RAbs(RMul(S, RMul(Y.d[i], Y.d[j])))))))
      [] k = "copy_from" -> IF Len(X.d) # Len(Y.d) THEN Refuse ELSE Store(inPlace, Same(X, Y.d))
      [] k = "sum" -> [st |-> "value", v |-> <<RSum(X.d)>>, s |-> <<RMul(R(Len(X.d)), RSum(Abs(X.d)))>>]
      [] k = "map" -> StoreS(to, Same(X, Map1(X, LAMBDA x : RAdd(RMul(R(op.a), x), R(op.b)))),
                             Map1(X, LAMBDA x : RAdd(RMul(R(2), RAbs(RMul(R(op.a), x))), RAbs(R(op.b)))))
      [] k = "cos"  -> IF ~Within(X, 1000000) THEN Unspecified ELSE StoreS(to, Same(X, Map1(X, LAMBDA x : RCos(x))), Map1(X, LAMBDA x : RAdd(R(1), RAbs(x))))
      [] k = "abs"  -> sc(LAMBDA x : RAbs(x))
      [] k = "sqrt" -> sc(LAMBDA x : RSqrt(x))
      [] k = "ln"   -> StoreS(to, Same(X, Map1(X, LAMBDA x : RLn(x))), Map1(X, LAMBDA x : RAdd(R(1), RAbs(RLn(x)))))
      [] k = "exp"  -> IF ~Within(X, 650) THEN Unspecified ELSE StoreS(to, Same(X, Map1(X, LAMBDA x : RExp(x))), Map1(X, LAMBDA x : RMul(RAdd(R(4), RAbs(x)), RExp(x))))
      [] OTHER -> Unspecified

Outcome(op, g) == LET r == Apply(op, g) IN
                  IF r.st = "store" THEN [g EXCEPT ![r.to] = r.a] ELSE g
==============================================================================
