------------------------------- MODULE Errors --------------------------------
(***************************************************************************)
(* The library's error values and its options.  An error is a kind with    *)
(* data; its message must name the kind and carry every datum, and two     *)
(* errors are the same exactly when kind and data agree.                   *)
(*                                                                         *)
(* A message is abstracted to the set of things a reader finds in it: the  *)
(* rendered data.  NoVal marks an absent optional value.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Kinds == {"NonConvergence", "Infeasible", "NumericalInstability", "InvalidParameters", "MatrixError"}
NoVal == "none"
\* the data a kind carries
Fields(k) == CASE k = "NonConvergence" -> {"iterations", "max_iters", "value"}
               [] k = "NumericalInstability" -> {"text", "value"}
               [] OTHER -> {"text"}
Present(e) == {f \in Fields(e.which) : ~(f = "value" /\ e.value = NoVal)}
\* equality of errors: data a kind does not carry do not count
Same(e1, e2) == e1.which = e2.which /\ \A f \in Fields(e1.which) : e1[f] = e2[f]
\* what a reader must be able to find in the message
MustName(e) == {<<f, e[f]>> : f \in Present(e)}

DefaultOptions == [max_iters |-> 2000, tolerance |-> "1e-20", verbose |-> FALSE]
NewOptions(m, t) == [max_iters |-> m, tolerance |-> t, verbose |-> FALSE]
==============================================================================
