---------------------------- MODULE AutoscaleMC ----------------------------
(* Overplots are added one at a time in any order; the axes computed from the running extent are acceptable,
   minimal and depend only on the set of overplots added.                                                  *)
EXTENDS Autoscale, FiniteSets, TLC
CONSTANT Xs, Ys, NMax        \* candidate coordinates in twentieths of a decade
VARIABLES added, ext
vars == <<added, ext>>
U(i) == RDiv(i, 20)
Boxes == {b \in [x0 : Xs, x1 : Xs, y0 : Ys, y1 : Ys] : b.x0 <= b.x1 /\ b.y0 <= b.y1}
Empty == [x0 |-> 1000, x1 |-> -1000, y0 |-> 1000, y1 |-> -1000]
Mn(a, b) == IF a < b THEN a ELSE b
Join(a, b) == [x0 |-> Mn(a.x0, b.x0), x1 |-> MaxI(a.x1, b.x1), y0 |-> Mn(a.y0, b.y0), y1 |-> MaxI(a.y1, b.y1)]
Init == added = {} /\ ext = Empty
Add == \E b \in Boxes : b \notin added /\ Cardinality(added) < NMax /\ added' = added \cup {b} /\ ext' = Join(ext, b)
Next == Add
Xs1 == {-31, -6, 0, 4, 13}   Ys1 == {-64, -12, -6, 8, 20}
Xs2 == {-6, 0, 13}   Ys2 == {-64, -12, 8}
Spec == Init /\ [][Next]_vars
R(e) == [x0 |-> U(e.x0), x1 |-> U(e.x1), y0 |-> U(e.y0), y1 |-> U(e.y1)]
AxesOK == added # {} => \A diff \in {TRUE, FALSE} :
   LET e == R(ext) a == Algo(e, diff) IN Acceptable(e, a.x, a.y, diff) /\ Minimal(e, a.x, a.y, diff)
\* the running extent is the extent of the set, however it was built
OrderFree == added # {} => /\ \A b \in added : ext.x0 <= b.x0 /\ b.x1 <= ext.x1 /\ ext.y0 <= b.y0 /\ b.y1 <= ext.y1
                           /\ \E b \in added : b.x0 = ext.x0
                           /\ \E b \in added : b.y1 = ext.y1
=============================================================================
