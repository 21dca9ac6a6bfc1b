----------------------------- MODULE SprinkleMC -----------------------------
(***************************************************************************)
(* Drawing a random configuration: places are drawn one at a time in the   *)
(* frame around the area; one outside the area is passed over; one inside  *)
(* erases the kept craters not farther than S from it and is kept itself,  *)
(* until n are kept.  Kept craters are found through a grid of cells: only *)
(* those in the cells the search returns are compared.  Places are 0..P-1  *)
(* on a circle, in cells of width W.  Inclusive = FALSE is the search that *)
(* returns only cells whose middle is near enough.                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS P, W, MaxS, MaxN, Inclusive
VARIABLES area, s, n, kept, count
vars == <<area, s, n, kept, count>>
Places == 0..(P-1)
Cell(p) == p \div W
Cells == {Cell(p) : p \in Places}
Abs(x) == IF x < 0 THEN -x ELSE x
D(p, q) == LET d == Abs(p - q) IN IF 2 * d > P THEN P - d ELSE d
In(c) == {p \in Places : Cell(p) = c}
Middle(c) == LET lo == CHOOSE p \in In(c) : \A q \in In(c) : p <= q IN lo + (Cardinality(In(c)) \div 2)
Cone(p) == IF Inclusive THEN {c \in Cells : \E q \in In(c) : D(p, q) <= s} ELSE {c \in Cells : D(p, Middle(c)) <= s}
All == UNION {kept[c] : c \in Cells}
Init == /\ area \in (SUBSET Places) \ {{}} /\ s \in 0..MaxS /\ n \in 1..MaxN
        /\ kept = [c \in Cells |-> {}] /\ count = 0
Draw(p) ==
  /\ count < n /\ p \in area
  /\ LET near == Cone(p)
         rest == [c \in Cells |-> IF c \in near THEN {q \in kept[c] : D(p, q) > s} ELSE kept[c]]
         gone == Cardinality(All) - Cardinality(UNION {rest[c] : c \in Cells})
     IN kept' = [rest EXCEPT ![Cell(p)] = @ \cup {p}] /\ count' = count - gone + 1
  /\ UNCHANGED <<area, s, n>>
Next == \E p \in Places : Draw(p)
Spec == Init /\ [][Next]_vars
InArea == All \subseteq area
InCells == \A c \in Cells : kept[c] \subseteq In(c)
Counted == count = Cardinality(All) /\ count <= n
Separation == \A p, q \in All : p # q => D(p, q) > s
\* a draw never leaves the configuration empty, and whatever was far enough from it stays
Progress == [][\E p \in area : kept'[Cell(p)] # {} /\ \A q \in All : D(p, q) > s => q \in UNION {kept'[c] : c \in Cells}]_vars
=============================================================================
