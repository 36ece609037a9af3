----------------------------- MODULE MC_Adaptor -----------------------------
EXTENDS Adaptor, TLC, Json, CSV, IOUtils
CONSTANTS MaxLim, Probes
VARIABLES hist, script, answers, fresh
vars == <<d, keep, mode, hist, script, answers, fresh>>
Init == /\ \E L \in 0..MaxLim : AInit(L, 0, "shape0")
        /\ hist = <<>> /\ script = <<>> /\ answers = <<>> /\ fresh = 0
NTell == Len(answers) < Probes /\ Tell /\ hist' = Append(hist, keep) /\ UNCHANGED <<script, answers, fresh>>
NAsk == \E a \in {"feasible", "cut"} : InnerAsk(d.c, a, Len(script))
          /\ script' = Append(script, [a |-> a]) /\ UNCHANGED <<hist, answers, fresh>>
NCut == \E s \in {"Success", "NoSoln"}, m \in {"lt", "gt"} :
          LET c == IF s = "Success" THEN fresh + 1 ELSE d.c IN
          /\ InnerCut("bias", d.cutid, s, m = "lt", c)
          /\ fresh' = IF s = "Success" THEN fresh + 1 ELSE fresh
          /\ script' = [script EXCEPT ![Len(script)] = @ @@ [s |-> s, m |-> m]]
          /\ UNCHANGED <<hist, answers>>
NAnswer == \E y \in BOOLEAN : Answer(y) /\ answers' = Append(answers, [yes |-> y, c |-> keep'.c])
          /\ UNCHANGED <<hist, script, fresh>>
Next == NTell \/ NAsk \/ NCut \/ NAnswer
\* P05
Isolated == keep.rest = "shape0" /\ (mode = "run" => keep = hist[Len(hist)])
FailedProbeKeeps == \A i \in 1..Len(answers) :
    IF answers[i].yes THEN TRUE ELSE answers[i].c = hist[i].c
Inv == Isolated /\ FailedProbeKeeps
Done == Len(answers) = Probes
Emit == (Done /\ "OUT" \in DOMAIN IOEnv) =>
    CSVWrite("%1$s", <<ToJson([lim |-> d.lim, script |-> script, answers |-> answers])>>, IOEnv.OUT)
=============================================================================
