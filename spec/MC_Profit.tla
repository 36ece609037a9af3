----------------------------- MODULE MC_Profit -------------------------------
(***************************************************************************)
(* The oracle's cuts are valid: at every point y of a grid and for every   *)
(* bound, the answer is an improvement exactly if y is feasible and earns  *)
(* the bound; otherwise each violated constraint's cut keeps every grid    *)
(* point that is feasible and earns at least the bound.  For the robust    *)
(* variant the profit reported is attained for every corner of the         *)
(* uncertainty set.                                                        *)
(***************************************************************************)
EXTENDS Profit, FiniteSets
CONSTANTS G, Shapes
VARIABLES s, i, j, gi, done
vars == <<s, i, j, gi, done>>
\* instances: price, scale, limit, elasticities (tenths), prices, uncertainty (thousandths)
Data == << [p |-> 20, a |-> 40, k |-> 30, e |-> <<1, 4>>, q |-> <<10, 35>>, u |-> <<3, 7, 1000, 1000, 1000>>],
           [p |-> 3, a |-> 5, k |-> 4, e |-> <<3, 3>>, q |-> <<2, 1>>, u |-> <<50, 20, 500, 1000, 100>>],
           [p |-> 7, a |-> 2, k |-> 9, e |-> <<5, 2>>, q |-> <<1, 3>>, u |-> <<0, 0, 0, 0, 0>>],
           [p |-> 10, a |-> 10, k |-> 2, e |-> <<2, 7>>, q |-> <<4, 4>>, u |-> <<100, 100, 2000, 500, 500>>] >>
Par(d) == <<R(d.p), R(d.a), R(d.k)>>
El(d)  == Vec(2, LAMBDA t : RDiv(R(d.e[t]), R(10)))
Pr(d)  == Vec(2, LAMBDA t : R(d.q[t]))
U(d)   == Vec(5, LAMBDA t : RDiv(R(d.u[t]), R(1000)))
Pt(a, b) == <<RDiv(RMul(R(a), R(4)), R(G)), RDiv(RMul(R(b), R(4)), R(G))>>
Bounds == <<"-50", "0", "5", "40", "200", "600">>
Init == s \in Shapes /\ i \in -G..G /\ j \in -G..G /\ gi \in 1..Len(Bounds) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<s, i, j, gi>>

Points == {Pt(a, b) : a, b \in -G..G}
CutsValid(d, y, gamma) ==
    LET I == Instance(Par(d), El(d), Pr(d))
        e == TLCEval(Eval(I, y))
        Z == TLCEval({z \in Points : LET ez == Eval(I, z) IN RLe(ez.f0, R(0)) /\ RLe(gamma, ProfitAt(ez))}) IN
    RLe(R(0), gamma) =>      \* (the logarithm of gamma + cost is convex only then)
    \A c \in {0, 1} : Violated(I, e, gamma, c, R(0)) =>
        /\ RLe(R(0), Value(I, e, gamma, c))
        /\ \A z \in Z : RLe(RAdd(RDot(Grad(I, e, gamma, c), VSub(z, y)), Value(I, e, gamma, c)), R("1e-25"))
ImproveValid(d, y, gamma) ==
    LET I == Instance(Par(d), El(d), Pr(d))
        e == TLCEval(Eval(I, y)) IN
    (\A c \in {0, 1} : ~Violated(I, e, gamma, c, R(0))) =>
        /\ RLe(gamma, ProfitAt(e)) /\ RLe(e.f0, R(0))
        /\ RLe(R(0), ProfitAt(e)) => \A z \in Points : LET ez == Eval(I, z) IN
              RLt(ProfitAt(e), ProfitAt(ez)) => RLe(RDot(ImpGrad(I, e), VSub(z, y)), R("1e-25"))
\* corners of the uncertainty set
Corner(d, sg) == LET u == U(d) IN
    Instance(<<RAdd(R(d.p), RMul(R(sg[3]), u[3])), R(d.a), R(d.k)>>,
             Vec(2, LAMBDA t : RAdd(El(d)[t], RMul(R(sg[t]), u[t]))),
             Vec(2, LAMBDA t : RAdd(Pr(d)[t], RMul(R(sg[4]), u[5]))))
RobustValid(d, y) ==
    LET w == ProfitAt(Eval(Robust(Par(d), El(d), Pr(d), U(d), y), y)) IN
    \A sg \in [1..4 -> {-1, 1}] : RLe(w, RAdd(ProfitAt(Eval(Corner(d, sg), y)), R("1e-25")))
Inv == done => /\ CutsValid(Data[s], Pt(i, j), R(Bounds[gi]))
               /\ gi = 1 => RobustValid(Data[s], Pt(i, j))
               /\ ImproveValid(Data[s], Pt(i, j), R(Bounds[gi]))
==============================================================================
