------------------------------- MODULE Adaptor -------------------------------
(***************************************************************************)
(* The oracle of a binary search made from a feasibility oracle and a      *)
(* search space: a probe runs the feasibility driver on a copy of the      *)
(* space.  keep is the space that survives the probes: its centre and      *)
(* everything else about it (shape, measure), d the inner run (Drivers).   *)
(***************************************************************************)
EXTENDS Drivers
VARIABLES keep, mode      \* mode: "idle", "told" (oracle knows the value), "run"

AInit(lim, c, rest) == /\ keep = [c |-> c, rest |-> rest]
                       /\ mode = "idle"
                       /\ d = Start("feas", lim, 0, c)

\* the probed value is passed to the oracle, then the inner run starts on a copy
Tell == mode = "idle" /\ mode' = "run" /\ d' = Start("feas", d.lim, 0, keep.c) /\ UNCHANGED keep

InnerAsk(x, a, id) == mode = "run" /\ AskFeas(x, a, id) /\ UNCHANGED <<keep, mode>>
InnerCut(how, id, status, below, c) == mode = "run" /\ ApplyCut(how, id, status, below, c) /\ UNCHANGED <<keep, mode>>

\* the probe answers whether a point was found; the space is recentred there
Answer(yes) == /\ mode = "run" /\ Over /\ yes = (Result.x # NoPoint)
               /\ keep' = IF yes THEN [keep EXCEPT !.c = Result.x] ELSE keep
               /\ mode' = "idle" /\ UNCHANGED d
=============================================================================
