----------------------------- MODULE MeasuresMC -----------------------------
(***************************************************************************)
(* The grid search for the k-th nearest neighbour against the exhaustive   *)
(* one.  Craters lie on a ring of N places cut into cells of W places; the *)
(* search widens from the crater's cell by neighbouring cells until it has *)
(* k + 1 craters, takes the k-th nearest of those as a bound and looks     *)
(* again in all the cells which the cone of that radius reaches.  The cone *)
(* search may leave out cells it only grazes (Slack places); widening the  *)
(* cone by a cell (Widen) makes up for it.                                 *)
(* The laws of the measures are checked on the same configurations mapped  *)
(* to the sphere.                                                          *)
(***************************************************************************)
EXTENDS Measures, FiniteSets
CONSTANTS N, W, MaxC, K, Slack, Widen
VARIABLES c, phase, i, zone, bound, got
vars == <<c, phase, i, zone, bound, got>>
Ring_ == 0..(N-1)
D(a, b) == LET d == (a - b + N) % N IN IF 2 * d > N THEN N - d ELSE d
Cell(x) == x \div W
NC == N \div W
Nb(z) == z \cup {(x + 1) % NC : x \in z} \cup {(x + NC - 1) % NC : x \in z}
\* distance from x to a cell
ToCell(x, z) == LET s == {D(x, y) : y \in {y \in Ring_ : Cell(y) = z}} IN CHOOSE m \in s : \A y \in s : m <= y
Cone(x, r) == {z \in 0..(NC-1) : ToCell(x, z) <= r - Slack} \cup {Cell(x)}
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE a \in s : \A b \in s : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) IN <<m>> \o Sorted(s \ {m})
InZone(z) == {j \in 1..Len(c) : Cell(c[j]) \in z}
KthIn(x, z) == LET q == Sorted({<<D(x, c[j]), j>> : j \in InZone(z)}) IN IF Len(q) > K THEN q[K+1][1] ELSE 0 - 1
Exhaustive(x) == KthIn(x, 0..(NC-1))

Init == c = <<>> /\ phase = "place" /\ i = 0 /\ zone = {} /\ bound = 0 /\ got = 0
Place == phase = "place" /\ Len(c) < MaxC /\ \E x \in Ring_ : (IF c = <<>> THEN TRUE ELSE c[Len(c)] <= x) /\ c' = Append(c, x) /\ UNCHANGED <<phase, i, zone, bound, got>>
Start == phase = "place" /\ Len(c) > K /\ \E j \in 1..Len(c) : i' = j /\ zone' = {Cell(c[j])} /\ phase' = "widen" /\ UNCHANGED <<c, bound, got>>
Grow == phase = "widen" /\ Cardinality(InZone(zone)) <= K /\ zone' = Nb(zone) /\ UNCHANGED <<c, phase, i, bound, got>>
Bound == phase = "widen" /\ Cardinality(InZone(zone)) > K /\ bound' = KthIn(c[i], zone) /\ phase' = "cone" /\ UNCHANGED <<c, i, zone, got>>
Look == phase = "cone" /\ got' = KthIn(c[i], Cone(c[i], bound + (IF Widen THEN W ELSE 0))) /\ phase' = "done" /\ UNCHANGED <<c, i, zone, bound>>
Next == Place \/ Start \/ Grow \/ Bound \/ Look
Spec == Init /\ [][Next]_vars

Correct == phase = "done" => got = Exhaustive(c[i])
Bounded == phase = "cone" => bound >= Exhaustive(c[i])
CanGrow == phase = "widen" => Cardinality(InZone(zone)) > K \/ Nb(zone) # zone

(* the same craters on a parallel circle of the sphere, moved a little apart *)
P == [j \in 1..Len(c) |-> VOf(RDiv(RNum(36 * c[j] + 3 * j), RNum(N)), RDiv(RNum(5 * ((c[j] * 7) % 5) + j), "3"))]
Box == <<[pts |-> <<VOf("-3", "-2"), VOf("40", "-2"), VOf("40", "12"), VOf("-3", "12")>>, hole |-> FALSE]>>
Swap(q) == <<q[Len(q)]>> \o SubSeq(q, 1, Len(q) - 1)
Laws == (phase = "widen" /\ i = 1 /\ Len(c) > 2 /\ zone = {Cell(c[1])}) =>
  LET p == TLCEval(P) F == TLCEval(Fans(Box)) cells == TLCEval(Cells(F, p)) IN
  /\ RClose(M2cnd(Swap(p)), M2cnd(p), "1e-12") /\ RLe("0", M2cnd(p))
  /\ RClose(RSum(cells), AreaOf(Box), "1e-10") /\ \A j \in 1..Len(cells) : RLe("-1e-15", cells[j])
  /\ RClose(RStd(Cells(F, Swap(p))), RStd(cells), "1e-9")
  /\ \A j \in 1..Len(p) : RLe(Second(p, j), Dists(p, j)[Len(p) - 1]) /\ RLe(Dists(p, j)[1], Second(p, j))
T == <<"1", "2", "2", "4">>
ASSUME REq(Percentile("2", T), "25") /\ REq(Percentile("1", T), "0") /\ REq(Percentile("5", T), "100") /\ REq(Percentile("3", T), "75")
ASSUME RNear(Score("2.25", T), "0", "1e-12") /\ RClose(Sd(T), "1.08972473588517", "1e-12") /\ BinOf("1.05") = 0 /\ BinOf("0.9") = 0 - 1 /\ BinOf("2.9") = 3
ASSUME Analysed(<<"1.1", "1.2", "1.3", "5", "5", "9", "9", "9", "9">>, "m2cnd") = {0, 6} /\ Analysed(<<"1.1", "1.2", "1.3", "5", "5", "9", "9", "9", "9">>, "sdaa") = {6}
=============================================================================
