----------------------------- MODULE RaFigureMC -----------------------------
(***************************************************************************)
(* The chart is filled bin by bin.  N bins have results; a selection of    *)
(* them (and 0 for the scores) is asked for, bins which do not exist being *)
(* passed over.  Each content keeps a cell of its own, within the frame,   *)
(* in the order of the bins.  ForgetScores leaves the scores out when the  *)
(* grid is sized: the negative control.  The laws of the score axis and    *)
(* of the view are checked on the way.                                     *)
(***************************************************************************)
EXTENDS RaFigure, TLC
CONSTANTS MaxN, MaxSel, ForgetScores
VARIABLES n, sel, todo, cells, phase
vars == <<n, sel, todo, cells, phase>>
D == Dim(CellCount(n, sel) - (IF ForgetScores /\ WithScores(sel) /\ Chosen(n, sel) # {} THEN 1 ELSE 0))
Init == n \in 0..MaxN /\ sel = {} /\ todo = <<>> /\ cells = <<>> /\ phase = "ask"
Ask == phase = "ask" /\ Cardinality(sel) < MaxSel /\ \E x \in 0..(MaxN + 1) : sel' = sel \cup {x} /\ UNCHANGED <<n, todo, cells, phase>>
Lay == phase = "ask" /\ todo' = Ascending(Chosen(n, sel)) /\ phase' = "fill" /\ UNCHANGED <<n, sel, cells>>
Fill == phase = "fill" /\ todo # <<>> /\ cells' = Append(cells, [bin |-> todo[1], at |-> CellAt(D, Len(cells))]) /\ todo' = Tail(todo) /\ UNCHANGED <<n, sel, phase>>
Scores == phase = "fill" /\ todo = <<>> /\ phase' = "done" /\ cells' = (IF WithScores(sel) THEN Append(cells, [bin |-> 0, at |-> CellAt(D, ScoreCell(D))]) ELSE cells) /\ UNCHANGED <<n, sel, todo>>
Next == Ask \/ Lay \/ Fill \/ Scores
Spec == Init /\ [][Next]_vars
OwnCell == \A i, j \in DOMAIN cells : i # j => cells[i].at # cells[j].at
InFrame == \A i \in DOMAIN cells : cells[i].at[1] \in 0..(D-1) /\ cells[i].at[2] \in 0..(D-1)
InOrder == \A i, j \in DOMAIN cells : (i < j /\ cells[j].bin # 0) => cells[i].bin < cells[j].bin /\
             (cells[i].at[2] > cells[j].at[2] \/ (cells[i].at[2] = cells[j].at[2] /\ cells[i].at[1] < cells[j].at[1]))
Complete == phase = "done" => {cells[i].bin : i \in DOMAIN cells} = Chosen(n, sel) \cup (IF WithScores(sel) THEN {0} ELSE {})
Tight == phase = "done" /\ Len(cells) > 1 => (D - 1) * (D - 1) < Len(cells)
-----------------------------------------------------------------------------
Fr == <<"0.1", "0.2", "0.9", "0.8">>
ASSUME \A d \in 1..4 : \A i, j \in 0..(d*d-1) : i # j => LET a == CellRect(Fr, d, i) b == CellRect(Fr, d, j) IN
          Contained(a, Fr, "1e-9") /\ (RLe(a[3], RAdd(b[1], "1e-9")) \/ RLe(b[3], RAdd(a[1], "1e-9")) \/ RLe(a[4], RAdd(b[2], "1e-9")) \/ RLe(b[4], RAdd(a[2], "1e-9")))
ASSUME \A a, b \in {"-40", "-3", "-1", "-0.2", "0", "0.2", "1", "3", "40"} : (RLt(a, b) <=> RLt(Scaled(a), Scaled(b))) /\ REq(ScoreY("sdaa", a), RNeg(ScoreY("m2cnd", a)))
ASSUME REq(Scaled(1), 1) /\ REq(Scaled(0), 0) /\ REq(Scaled("-1"), "-1")
Cs == {VOf(x, y) : x \in {"-170", "3", "90", "180"}, y \in {"-90", "-40", "0", "77", "90"}}
ASSUME \A c \in Cs : \A q \in {<<"0.3", "0.2">>, <<"-0.6", "0.1">>, <<"0", "0">>, <<"0.01", "-0.7">>} :
          LET v == Unview(c, q) w == View(c, v) IN RNear(w[1], q[1], "1e-9") /\ RNear(w[2], q[2], "1e-9") /\ RLe(0, RDot(c, v))
\* the centroid of a box on the equator or about a pole is its middle; the two parts of an area balance; a hole pushes it away
Box(x, y, w) == Ring(<<<<RSub(x, w), RSub(y, w)>>, <<RAdd(x, w), RSub(y, w)>>, <<RAdd(x, w), RAdd(y, w)>>, <<RSub(x, w), RAdd(y, w)>>>>)
One(x, y, w) == <<[pts |-> Box(x, y, w), hole |-> FALSE]>>
ASSUME \A x \in {"-179", "0", "37", "90"} : \A w \in {"1", "10", "40"} : RLt(VAngle(Centroid(One(x, 0, w)), VOf(x, 0)), "1e-9") /\ RLt(VAngle(Centroid(<<[pts |-> Reverse(Box(x, 0, w)), hole |-> FALSE]>>), VOf(x, 0)), "1e-9")
ASSUME RLt(VAngle(Centroid(One(20, 0, 5) \o One(40, 0, 5)), VOf(30, 0)), "1e-9")
ASSUME LET c == Centroid(One(20, 0, 10) \o <<[pts |-> Reverse(Box(24, 0, 3)), hole |-> TRUE]>>) IN RLt(0, RSub(VAngle(c, VOf(24, 0)), VAngle(VOf(20, 0), VOf(24, 0))))
ASSUME \A x \in {"18", "20", "25"} : \A y \in {"-3", "0", "7"} : LET v == VOf(x, y) IN RNear(ToEdge(v, VOf(10, 0), VOf(30, 0)), RAbs(RMul(y, RDiv(Pi, 180))), "1e-9")
ASSUME REq(ToEdge(VOf(5, 0), VOf(10, 0), VOf(30, 0)), VAngle(VOf(5, 0), VOf(10, 0)))
=============================================================================
