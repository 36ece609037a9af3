----------------------------- MODULE T_Drivers ------------------------------
(***************************************************************************)
(* Validates recorded driver runs against Drivers.  Each line of the trace *)
(* file is one run: the constructor data and the log of everything the     *)
(* environment saw ("ask", and "bias"/"central"/"q" for an applied cut)    *)
(* and of what the caller got ("ret").                                     *)
(***************************************************************************)
EXTENDS Drivers, HP, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
vars == <<d, h, l>>

Log == Hist[h].log
Ev  == Log[l + 1]
Has(f) == f \in DOMAIN Ev

Init == /\ h \in 1..Len(Hist)
        /\ l = 0
        /\ d = LET H == Hist[h]
                   s == Start(H.kind, H.lim, IF "gamma0" \in DOMAIN H THEN H.gamma0 ELSE "none", 0) IN
               \* of very long runs only the end is recorded, and the state it starts from
               IF "start" \notin DOMAIN H THEN s
               ELSE [s EXCEPT !.k = H.start.k, !.c = H.start.c, !.gamma = IF H.kind = "feas" THEN @ ELSE H.start.gamma,
                              !.retry = H.start.retry, !.best = H.start.best]


TAsk == /\ Ev.e = "ask" /\ ~Has("over")
        /\ CASE d.kind = "feas"   -> AskFeas(Ev.x, Ev.a, Ev.id)
             [] d.kind = "optim"  -> AskOptim(Ev.x, Ev.gamma, Ev.imp, Ev.gn, Ev.id)
             [] d.kind = "optimq" -> AskOptimQ(Ev.x, Ev.gamma, Ev.retry, Ev.imp, Ev.gn, Ev.xq, Ev.more, Ev.id)
TCut == /\ Ev.e \in {"bias", "central", "q"} /\ Ev.s \in Statuses
        /\ Ev.g = 1000 + Ev.cut
        /\ ApplyCut(Ev.e, Ev.cut, Ev.s, RLt(R(Ev.t), R(Hist[h].tol)), IF Ev.s = "Success" THEN Ev.c ELSE d.c)
TRet == /\ Ev.e = "ret" /\ ~Has("panic") /\ l + 1 = Len(Log)
        /\ Over /\ Ev.x = Result.x /\ Ev.n = Result.n
        /\ d.kind # "feas" => Ev.gamma = Result.gamma
        /\ UNCHANGED d

Next == l < Len(Log) /\ (TAsk \/ TCut \/ TRet) /\ l' = l + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars

\* every logged event is allowed, and the log is complete
Accepted == /\ l < Len(Log) => ENABLED Next
            /\ l = Len(Log) => l > 0 /\ Log[l].e = "ret"
=============================================================================
