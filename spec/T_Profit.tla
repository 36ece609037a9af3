------------------------------- MODULE T_Profit ------------------------------
(* Validates recorded query histories of the three profit oracles. *)
EXTENDS Profit, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
\* listed finding: the discrete oracle shifts the depth with the wrong sign
KnownShift == "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN = "shift-sign"
VARIABLES h, l, bad,
          last,     \* constraint reported last
          yd        \* numerals of the integral point (discrete variant)
vars == <<h, l, bad, last, yd>>

Par(hh) == RV(hh.params)
InstOf(hh, y) == IF hh.kind = "profitrb" THEN Robust(Par(hh), RV(hh.el), RV(hh.price), RV(hh.unc), y)
                 ELSE Instance(Par(hh), RV(hh.el), RV(hh.price))

Near(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(R("1e-12"), s))
VNear(u, v, s) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : Near(u[k], v[k], s)

\* the cut of constraint c at e is what was returned; `off` is added to the depth
IsCut(I, e, gamma, c, out, off) ==
    LET g == Grad(I, e, gamma, c)  v == RAdd(Value(I, e, gamma, c), off)
        \* cancellation in gamma + vx
        K == IF c = 0 THEN R(1) ELSE RAdd(R(1), RDiv(RAdd(RAbs(gamma), e.vx), RAbs(RAdd(gamma, e.vx)))) IN
    /\ VNear(RV(out.g), g, RMul(K, RAdd(R(1), MaxAbs(g))))
    /\ Near(R(out.b0), v, RMul(RMul(K, RAdd(R(1), RMul(MaxAbs(g), MaxAbs(e.y)))), RAdd(RAdd(R(1), RAbs(e.lc)), RAbs(v))))
IsImp(I, e, out, off) ==
    LET g == ImpGrad(I, e) IN
    /\ VNear(RV(out.g), g, RAdd(R(1), MaxAbs(g)))
    /\ Near(R(out.b0), off, RMul(RAdd(R(1), MaxAbs(g)), RAdd(R(10), RAbs(off))))
    /\ RLe(RAbs(RSub(R(out.gamma), ProfitAt(e))), RMul(R("1e-12"), RMul(RAdd(R(10), RAbs(e.lc)), RAdd(e.cobb, e.vx))))
    /\ (off = R(0) => R(out.b0) = R(0))

(* The possible answers at e with bound gamma after constraint `la`: each   *)
(* constraint violated for sure, or possibly (rounding), in rotation.       *)
Order(la) == IF la = 1 THEN <<0, 1>> ELSE <<1, 0>>
Answers(I, e, gamma, la, ev) ==
    LET o == Order(la)
        S(c) == Violated(I, e, gamma, c, IF ev.exact /\ c = 0 THEN R("1e-30") ELSE R("1e-14"))
        M(c) == Violated(I, e, gamma, c, IF ev.exact /\ c = 0 THEN R("1e-30") ELSE R("-1e-14")) IN
    (IF M(o[1]) THEN {o[1]} ELSE {})
    \cup (IF ~S(o[1]) /\ M(o[2]) THEN {o[2]} ELSE {})
    \cup (IF ~S(o[1]) /\ ~S(o[2]) THEN {2} ELSE {})        \* 2: none

\* result: <<faults, answer>>
Plain(I, e, gamma, la, ev, out, offc, offi) ==
    LET A == TLCEval(Answers(I, e, gamma, la, ev)) IN
    IF out.imp THEN <<IF 2 \notin A THEN {"improvement reported wrongly"} ELSE IF ~IsImp(I, e, out, offi) THEN {"improvement"} ELSE {}, 2>>
    ELSE IF A = {2} THEN <<{"improvement missed"}, 2>>
    ELSE LET ok == {c \in A \ {2} : IsCut(I, e, gamma, c, out, offc[c])} IN
         <<(IF ok # {} THEN {} ELSE {"cut"}) \cup (IF R(out.gamma) = gamma THEN {} ELSE {"bound changed without improvement"}),
           IF ok # {} THEN CHOOSE c \in ok : TRUE ELSE 2>>

Zero == [c \in {0, 1} |-> R(0)]
\* depth shift of the discrete variant, relative to the query point y
Shift(g, y, d, sign) == RMul(R(sign), RDot(g, VSub(y, d)))
AtIntegral(I, d, gamma, la, ev, out, y, sign) ==
    LET e == TLCEval(Eval(I, d)) IN
    Plain(I, e, gamma, la, ev, out, [c \in {0, 1} |-> Shift(Grad(I, e, gamma, c), y, d, sign)], Shift(ImpGrad(I, e), y, d, sign))
\* is the point handed over the rounding of exp(y)?
Rounded(y, d) == \A i \in 1..2 :
    LET x == RExp(y[i])  z == RExp(d[i])  m == RFloor(RAdd(z, R("0.5"))) IN
    /\ m >= 1 /\ RLe(RAbs(RSub(z, R(m))), RMul(R("1e-12"), R(m)))
    /\ \/ RLe(RAbs(RSub(x, R(m))), RAdd(R("0.5"), RMul(R("1e-12"), R(m))))
       \/ m = 1 /\ RLt(x, R(1))

\* result: [bad, last, yd]
Step(hh, ev, out, la, d0) ==
    LET y == TLCEval(RV(ev.x))
        gamma == R(ev.gamma)
        I == TLCEval(InstOf(hh, y)) IN
    IF "panic" \in DOMAIN out THEN [bad |-> {"panic"}, last |-> la, yd |-> d0]
    ELSE IF hh.kind # "profitq"
    THEN LET r == TLCEval(Plain(I, Eval(I, y), gamma, la, ev, out, Zero, R(0))) IN
         [bad |-> r[1], last |-> IF r[2] = 2 THEN la ELSE r[2], yd |-> d0]
    ELSE
    LET e == TLCEval(Eval(I, y))
        A == IF ev.retry THEN {2} ELSE TLCEval(Answers(I, e, gamma, la, ev))
        xq == TLCEval(RV(out.xq))
        asIs == {c \in A \ {2} : ~out.imp /\ xq = y /\ IsCut(I, e, gamma, c, out, R(0))}
        d == IF ev.retry THEN RV(d0) ELSE xq
        good == TLCEval(AtIntegral(I, d, gamma, la, ev, out, y, 1))
        known == IF KnownShift /\ good[1] # {} THEN AtIntegral(I, d, gamma, la, ev, out, y, -1) ELSE good
        flags == (IF out.more = ~ev.retry THEN {} ELSE {"alternatives flag"})
                 \cup (IF out.imp \/ R(out.gamma) = gamma THEN {} ELSE {"bound changed without improvement"})
    IN IF asIs # {} THEN [bad |-> flags, last |-> CHOOSE c \in asIs : TRUE, yd |-> d0]
       ELSE IF 2 \notin A THEN [bad |-> {"violated constraint not answered"}, last |-> la, yd |-> d0]
       ELSE [bad |-> flags \cup known[1]
                     \cup (IF ev.retry THEN (IF out.xq = d0 THEN {} ELSE {"retry at another point"})
                           ELSE IF Rounded(y, xq) THEN {} ELSE {"not the nearest integral point"}),
             last |-> IF known[2] = 2 THEN la ELSE known[2], yd |-> out.xq]

Init == h \in 1..Len(Hist) /\ l = 0 /\ bad = {} /\ last = 1 /\ yd = <<"0e0", "0e0">>
Next == /\ bad = {} /\ "panic" \notin DOMAIN Hist[h] /\ l < Len(Hist[h].log)
        /\ LET r == TLCEval(Step(Hist[h], Hist[h].log[l + 1], Hist[h].log[l + 1].out, last, yd)) IN
           bad' = r.bad /\ last' = r.last /\ yd' = r.yd
        /\ l' = l + 1 /\ UNCHANGED h
Good == bad = {} /\ "panic" \notin DOMAIN Hist[h]
==============================================================================
