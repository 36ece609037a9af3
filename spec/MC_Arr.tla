------------------------------- MODULE MC_Arr --------------------------------
(***************************************************************************)
(* All array programs of Depth operations over three registers that start  *)
(* as the vectors and matrices below.  Well-formedness is an invariant,    *)
(* a refused operation changes nothing, and algebraic laws tie the         *)
(* operations together.  Every program is written out for replay.          *)
(***************************************************************************)
EXTENDS ArrSpec, Json, CSV, IOUtils, FiniteSets
CONSTANTS Depth, Kinds, Pick
VARIABLE prog        \* the program so far; the registers follow from it
B(k, x, y, to) == [op |-> k, x |-> x, y |-> y, to |-> to, s |-> "2", n |-> 2, r |-> 2, c |-> 2, i |-> 1, j |-> 0, a |-> "-1", b |-> "3", v |-> <<"1", "-2", "0.5", "4">>]
All == {"new", "ones", "zeros", "full", "eye", "from", "from_fn", "from_shape_vec", "from_diag", "row", "same_shape", "clone", "linspace", "arange",
        "get", "get1", "set", "set_idx", "shape", "eq", "add_s", "sub_s", "mul_s", "div_s", "neg_ref", "add_assign", "sub_assign", "own_add", "own_sub",
        "own_mul", "ref_add", "ref_sub", "ref_mul", "dot_mv", "dot", "outer", "rank1", "copy_from", "sum", "map", "abs", "iter_mut"}
Starts == << <<MkV(RV(<<1, -2>>)), MkV(RV(<<3, 4>>)), MkM(2, 2, RV(<<1, 2, 2, -1>>))>>,
             <<MkV(RV(<<1, 2, 3>>)), MkM(2, 3, RV(<<1, 0, -1, 2, 5, 3>>)), MkV(RV(<<2, -1>>))>>,
             <<MkV(<<>>), MkM(1, 2, RV(<<7, -3>>)), MkV(RV(<<5>>))>> >>
RECURSIVE Regs(_, _)
Regs(p, k) == IF k = 1 THEN Starts[p[1]] ELSE TLCEval(Outcome(B(p[k][1], p[k][2], p[k][3], p[k][4]), Regs(p, k - 1)))
Init == \E p \in Pick : prog = <<p>>
Next == /\ Len(prog) <= Depth
        /\ \E k \in All : \E x \in 0..2 : \E y \in 0..2 : \E to \in {2} :
              /\ (k \in {"new", "ones", "zeros", "full", "eye", "from", "from_fn", "from_shape_vec", "linspace", "arange"} => x = 0 /\ y = 0)
              /\ (k \notin {"eq", "add_assign", "sub_assign", "own_add", "own_sub", "own_mul", "ref_add", "ref_sub", "ref_mul", "dot_mv", "dot", "outer", "rank1", "copy_from"} => y = 0)
              /\ prog' = Append(prog, <<k, x, y, to>>)
WF(a) == Len(a.d) = IF a.c > 0 THEN a.r * a.c ELSE a.r
InvOf(g) == \A i \in 1..3 : WF(g[i]) /\ \A j \in 1..Len(g[i].d) : RIs(g[i].d[j])
\* laws, on the registers reached
A1(g, k, x, y) == Apply(B(k, x, y, 2), g)
Ok(r) == r.st = "store"
LawsOf(g) == \A x, y \in 0..2 :
    LET add == A1(g, "ref_add", x, y)  sub == A1(g, "ref_sub", x, y)  mul == A1(g, "ref_mul", x, y)
        out == A1(g, "outer", x, y)  dot == A1(g, "dot", x, y) IN
    /\ Ok(add) => /\ A1(g, "ref_add", y, x).a = add.a
                  /\ Apply(B("ref_sub", 2, y, 2), [g EXCEPT ![3] = add.a]).st = "store" =>
                     (y # 2 => Apply(B("ref_sub", 2, y, 2), [g EXCEPT ![3] = add.a]).a = g[x + 1])
    /\ Ok(mul) /\ ~Is2(g[x + 1]) /\ ~Is2(g[y + 1]) => dot.v[1] = RSum(mul.a.d)
    /\ Ok(out) => RSum(out.a.d) = RMul(RSum(g[x + 1].d), RSum(g[y + 1].d))
    /\ Ok(sub) => A1(g, "neg_ref", x, y).st = "store" /\ Len(sub.a.d) = Len(g[x + 1].d)
Inv == InvOf(TLCEval(Regs(prog, Len(prog))))
Laws == LawsOf(TLCEval(Regs(prog, Len(prog))))
Emit == (Len(prog) = Depth + 1 /\ "OUT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(prog)>>, IOEnv.OUT)
==============================================================================
