----------------------------- MODULE MC_Drivers -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Drivers for one kind of driver, all iteration *)
(* limits up to MaxLim and all environments, with a history variable.  The *)
(* properties are stated over the history, independently of the actions.   *)
(* Every complete behaviour is appended to the file OUT for replay.        *)
(***************************************************************************)
EXTENDS Drivers, TLC, Json, CSV, IOUtils

CONSTANTS Kind, MaxLim
VARIABLE hist       \* one record per iteration: what was asked, answered, applied

Gamma0 == -7
Init == /\ \E L \in 0..MaxLim : d = Start(Kind, L, Gamma0, 0)
        /\ hist = <<>>

Measures == {"lt", "eq", "gt"}     \* the measure compared with the tolerance

Ask ==
  \/ \E a \in {"feasible", "cut"} :
        /\ AskFeas(d.c, a, d.k)
        /\ hist' = Append(hist, [x |-> d.c, a |-> a])
  \/ \E imp \in BOOLEAN :
     LET gn == IF imp THEN d.k + 10 ELSE d.gamma IN
        /\ AskOptim(d.c, d.gamma, imp, gn, d.k)
        /\ hist' = Append(hist, [x |-> d.c, g |-> d.gamma, imp |-> imp, gn |-> gn])
  \/ \E imp, more \in BOOLEAN :
     LET gn == IF imp THEN d.k + 10 ELSE d.gamma
         xq == 500 + d.k IN
        /\ AskOptimQ(d.c, d.gamma, d.retry, imp, gn, xq, more, d.k)
        /\ hist' = Append(hist, [x |-> d.c, g |-> d.gamma, imp |-> imp, gn |-> gn,
                                 more |-> more, xq |-> xq, retry |-> d.retry])

Cut ==
  \E s \in Statuses, m \in Measures :
     LET c == IF s = "Success" THEN Cardinality({i \in 1..Len(hist) - 1 : hist[i].s = "Success"}) + 1 ELSE d.c IN
     /\ ApplyCut(CutKind, d.cutid, s, m = "lt", c)
     /\ hist' = [hist EXCEPT ![Len(hist)] = @ @@ [s |-> s, m |-> m, how |-> CutKind]]

Next == Ask \/ Cut
Spec == Init /\ [][Next]_<<d, hist>>

-----------------------------------------------------------------------------
N == Len(hist)
HasCut(i) == "s" \in DOMAIN hist[i]
Improving == {i \in 1..N : hist[i].imp}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
\* what iteration i did after which a run must not go on
Decides(i) ==
    IF Kind = "feas" /\ hist[i].a = "feasible" THEN TRUE
    ELSE IF ~HasCut(i) THEN FALSE
    ELSE IF Kind # "optimq" THEN hist[i].s # "Success" \/ hist[i].m = "lt"
    ELSE hist[i].s = "NoSoln" \/ (hist[i].s = "NoEffect" /\ ~hist[i].more) \/ hist[i].m = "lt"

Budget == N <= d.lim
StopsWhenDecided == \A i \in 1..N : Decides(i) => i = N /\ Over
Exhausts == (Over /\ ~(N > 0 /\ Decides(N))) => N = d.lim
Count == Over => Result.n = (IF N > 0 /\ Decides(N) THEN N - 1 ELSE d.lim)

\* P01
CertifiedPoint == (Over /\ Kind = "feas") =>
    IF N > 0 /\ hist[N].a = "feasible" THEN Result.x = hist[N].x ELSE Result.x = NoPoint
\* P02, P03
LatestImproving == (Over /\ Kind # "feas") =>
    Result.x = (IF Improving = {} THEN NoPoint
                ELSE IF Kind = "optim" THEN hist[Max(Improving)].x ELSE hist[Max(Improving)].xq)
BoundUntouched == (Over /\ Kind # "feas") =>
    /\ Result.gamma = (IF N = 0 THEN Gamma0 ELSE hist[N].gn)
    /\ \A i \in 1..N : hist[i].g = (IF i = 1 THEN Gamma0 ELSE hist[i - 1].gn)
CutRouting == \A i \in 1..N : HasCut(i) =>
    hist[i].how = CASE Kind = "feas" -> "bias"
                    [] Kind = "optim" -> IF hist[i].imp THEN "central" ELSE "bias"
                    [] OTHER -> "q"
\* P03: the retry request, by the last determined event before the query
RetryProtocol == Kind = "optimq" =>
    \A i \in 1..N :
       hist[i].retry <=>
         \E j \in 1..i - 1 :
            /\ hist[j].s = "NoEffect" /\ hist[j].more
            /\ \A l \in j + 1..i - 1 : hist[l].s = "Unknown" /\ ~hist[l].imp

Inv == Budget /\ StopsWhenDecided /\ Exhausts /\ Count /\ CertifiedPoint /\ LatestImproving
       /\ BoundUntouched /\ CutRouting /\ RetryProtocol

Emit == (Over /\ "OUT" \in DOMAIN IOEnv) =>
    CSVWrite("%1$s", <<ToJson([kind |-> Kind, lim |-> d.lim, script |-> hist, res |-> Result])>>, IOEnv.OUT)
=============================================================================
