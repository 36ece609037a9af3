------------------------------- MODULE Drivers -------------------------------
(***************************************************************************)
(* The three cutting-plane search drivers (feasibility, optimization and   *)
(* discrete optimization) as one state machine per run.                    *)
(*                                                                         *)
(* A run alternates between asking the oracle at the centre of the search  *)
(* space and applying the cut it answered with.  The oracle and the search *)
(* space are the environment: their answers are parameters of the actions. *)
(* Points, cuts and objective bounds are opaque values.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds    == {"feas", "optim", "optimq"}
Statuses == {"Success", "NoSoln", "NoEffect", "Unknown"}
NoPoint  == -1

VARIABLE d

\* The state of a run that is about to make its first query, with centre c.
Start(kind, lim, gamma, c) ==
    [kind |-> kind, lim |-> lim, gamma |-> gamma, c |-> c,
     k     |-> 0,          \* number of the current iteration, from 0
     pc    |-> "ask",      \* "ask", "cut" (a cut waits to be applied), "done"
     cutid |-> NoPoint,    \* the cut that waits to be applied
     imp   |-> FALSE,      \* the waiting cut came with an improvement
     more  |-> FALSE,      \* the oracle has alternatives to the waiting cut
     retry |-> FALSE,      \* the next query asks for an alternative cut
     best  |-> NoPoint,    \* the point to be returned
     n     |-> -1]         \* the count to be returned

Asking == d.pc = "ask" /\ d.k < d.lim

(* The oracle is asked at x, and answers. *)
AskFeas(x, a, id) ==
    /\ d.kind = "feas" /\ Asking /\ x = d.c
    /\ d' = IF a = "feasible"
            THEN [d EXCEPT !.pc = "done", !.best = d.c, !.n = d.k]
            ELSE [d EXCEPT !.pc = "cut", !.cutid = id]

AskOptim(x, g, imp, gn, id) ==
    /\ d.kind = "optim" /\ Asking /\ x = d.c /\ g = d.gamma
    /\ d' = [d EXCEPT !.pc = "cut", !.cutid = id, !.gamma = gn, !.imp = imp,
                      !.best = IF imp THEN d.c ELSE @]

AskOptimQ(x, g, retry, imp, gn, xq, more, id) ==
    /\ d.kind = "optimq" /\ Asking /\ x = d.c /\ g = d.gamma /\ retry = d.retry
    /\ d' = [d EXCEPT !.pc = "cut", !.cutid = id, !.gamma = gn, !.imp = imp, !.more = more,
                      !.best = IF imp THEN xq ELSE @,
                      !.retry = IF imp THEN FALSE ELSE @]

\* The way in which the waiting cut has to be applied.
CutKind == CASE d.kind = "feas"   -> "bias"
             [] d.kind = "optim"  -> IF d.imp THEN "central" ELSE "bias"
             [] d.kind = "optimq" -> "q"

GiveUp       == [d EXCEPT !.pc = "done", !.n = d.k]
GoOn(c, r)   == [d EXCEPT !.pc = "ask", !.k = @ + 1, !.c = c, !.retry = r, !.imp = FALSE]

(* The waiting cut is applied; the space answers with a status, with whether *)
(* its measure is now below the tolerance, and with its centre.              *)
ApplyCut(how, id, status, below, c) ==
    /\ d.pc = "cut" /\ how = CutKind /\ id = d.cutid
    /\ status # "Success" => c = d.c
    /\ d' = IF d.kind # "optimq"
            THEN IF status # "Success" \/ below THEN GiveUp ELSE GoOn(c, FALSE)
            ELSE CASE status = "NoSoln"                  -> GiveUp
                   [] status = "NoEffect" /\ ~d.more     -> GiveUp
                   [] below                              -> GiveUp
                   [] status = "Success"                 -> GoOn(c, FALSE)
                   [] status = "NoEffect" /\ d.more      -> GoOn(c, TRUE)
                   [] status = "Unknown"                 -> GoOn(c, d.retry)

(* The run is over; what it returns. *)
Over   == d.pc = "done" \/ (d.pc = "ask" /\ d.k = d.lim)
Result == [x |-> d.best, n |-> IF d.pc = "done" THEN d.n ELSE d.lim, gamma |-> d.gamma]
=============================================================================
