--------------------------------- MODULE Svm ---------------------------------
(***************************************************************************)
(* The support vector machine oracle: samples X (rows) with labels +-1; a  *)
(* query is a hyperplane (w, b).  The oracle reports the smallest margin   *)
(* and the direction of the first sample attaining it, or bound zero and a *)
(* null cut when every margin is at least one.                             *)
(***************************************************************************)
EXTENDS Lin

Margin(X, y, q, i)  == RMul(R(y[i]), RAdd(RDot(X[i], SubSeq(q, 1, Len(q) - 1)), q[Len(q)]))
Margins(X, y, q)    == Vec(Len(X), LAMBDA i : Margin(X, y, q, i))
Dir(X, y, i)        == Vec(Len(X[i]) + 1, LAMBDA j : IF j <= Len(X[i]) THEN RMul(R(-y[i]), X[i][j]) ELSE R(-y[i]))
Separates(m)        == \A i \in 1..Len(m) : RLe(R(1), m[i])
IsMin(m, i)         == \A j \in 1..Len(m) : RLe(m[i], m[j])
FirstMin(m)         == CHOOSE i \in 1..Len(m) : IsMin(m, i) /\ \A j \in 1..i - 1 : RLt(m[i], m[j])
==============================================================================
