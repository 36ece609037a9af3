----------------------------- MODULE T_Adaptor ------------------------------
EXTENDS Adaptor, HP, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, p
Log == Hist[h].log
Ev  == Log[l + 1]
Rest0 == <<0, R(Hist[h].tsq0)>>
Init == h \in 1..Len(Hist) /\ l = 0 /\ p = 0 /\ AInit(Hist[h].lim, 0, Rest0)
TTell == /\ Ev.e = "gamma" /\ p < Len(Hist[h].probes) /\ R(Ev.v) = R(Hist[h].probes[p + 1])
         /\ Tell /\ p' = p + 1
TAsk == Ev.e = "ask" /\ "over" \notin DOMAIN Ev /\ InnerAsk(Ev.x, Ev.a, Ev.id) /\ UNCHANGED p
TCut == /\ Ev.e \in {"bias", "central", "q"} /\ Ev.s \in Statuses
        /\ InnerCut(Ev.e, Ev.cut, Ev.s, RLt(R(Ev.t), R(Hist[h].tol)), IF Ev.s = "Success" THEN Ev.c ELSE d.c)
        /\ UNCHANGED p
TAnswer == /\ Ev.e = "answer" /\ "panic" \notin DOMAIN Ev /\ Answer(Ev.ans) /\ UNCHANGED p
           /\ keep'.c = Ev.c /\ keep'.rest = <<Ev.shape, R(Ev.tsq)>>
Next == l < Len(Log) /\ (TTell \/ TAsk \/ TCut \/ TAnswer) /\ l' = l + 1 /\ UNCHANGED h
Accepted == /\ l < Len(Log) => ENABLED Next
            /\ l = Len(Log) => p = Len(Hist[h].probes) /\ (p > 0 => Log[l].e = "answer")
=============================================================================
