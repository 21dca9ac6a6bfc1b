------------------------------ MODULE RaFigure ------------------------------
(***************************************************************************)
(* How a counting area, its craters and the results of a randomness        *)
(* analysis are shown: maps in orthographic view about the centroid of the *)
(* area, a chart of one cell per size bin with the scores in the last cell *)
(* and the panel of stored scores above a crater plot.                     *)
(***************************************************************************)
EXTENDS Measures
-----------------------------------------------------------------------------
(* cells of the chart *)
Chosen(n, sel) == IF sel = {} THEN 1..n ELSE {x \in sel : x \in 1..n}
WithScores(sel) == sel = {} \/ 0 \in sel
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE a \in s : \A b \in s : a <= b IN <<m>> \o Ascending(s \ {m})
CellCount(n, sel) == Cardinality(Chosen(n, sel)) + (IF WithScores(sel) THEN 1 ELSE 0)
Dim(m) == CHOOSE d \in 0..m : d * d >= m /\ \A c \in 0..m : c * c >= m => d <= c
(* cell i of d x d, counted from 0, row by row from the top: <<column, row from below>> *)
CellAt(d, i) == <<i % d, d - 1 - i \div d>>
ScoreCell(d) == d * d - 1
(* rectangle <<x0, y0, x1, y1>> of cell i within the frame *)
CellRect(frame, d, i) ==
  LET w == RDiv(RSub(frame[3], frame[1]), d) h == RDiv(RSub(frame[4], frame[2]), d) c == CellAt(d, i)
      x == RAdd(frame[1], RMul(c[1], w)) y == RAdd(frame[2], RMul(c[2], h))
  IN <<x, y, RAdd(x, w), RAdd(y, h)>>
Within(p, rect, tol) == /\ RLe(RSub(rect[1], tol), p[1]) /\ RLe(p[1], RAdd(rect[3], tol))
                        /\ RLe(RSub(rect[2], tol), p[2]) /\ RLe(p[2], RAdd(rect[4], tol))
Centre(rect) == <<RDiv(RAdd(rect[1], rect[3]), 2), RDiv(RAdd(rect[2], rect[4]), 2)>>
Contained(r, rect, tol) == Within(<<r[1], r[2]>>, rect, tol) /\ Within(<<r[3], r[4]>>, rect, tol)
-----------------------------------------------------------------------------
(* score axis: compressed towards large scores *)
Scaled(s) == IF RLt(s, 0) THEN RNeg(RPow(RNeg(s), "0.6")) ELSE IF REq(s, 0) THEN "0" ELSE RPow(s, "0.6")
ScoreY(measure, s) == IF measure = "sdaa" THEN RNeg(Scaled(s)) ELSE Scaled(s)
BinX(k) == RMul(RAdd(RDiv(RNum(k), 2), "0.25"), RLog10(2))       \* log10 of the diameter in the middle of bin k
-----------------------------------------------------------------------------
(* centroid: half the sum of edge angle times unit edge normal, over the rings turned to have the area on their left *)
EdgeSum(pts) == LET e(i) == VCross(pts[i], pts[Nxt(pts, i)]) IN VSumN([i \in 1..Len(pts) |-> VMul(VAngle(pts[i], pts[Nxt(pts, i)]), VUnit(e(i)))], Len(pts))
LeftOf(ring) == IF ring.hole = RLt(Signed(ring.pts), "0") THEN ring.pts ELSE Reverse(ring.pts)
Centroid(A) == VUnit(VSumN([k \in 1..Len(A) |-> EdgeSum(LeftOf(A[k]))], Len(A)))
(* view from above c: x to the east, y to the north *)
East(c) == IF RLt(RAbs(RAdd(RMul(c[1], c[1]), RMul(c[2], c[2]))), "1e-20") THEN <<"0", "1", "0">> ELSE VUnit(<<RNeg(c[2]), c[1], "0">>)
View(c, v) == LET e == East(c) IN <<RDot(e, v), RDot(VCross(c, e), v)>>
Unview(c, q) ==
  LET e == East(c) r2 == RAdd(RMul(q[1], q[1]), RMul(q[2], q[2]))
  IN VUnit(VAdd(VAdd(VMul(q[1], e), VMul(q[2], VCross(c, e))), VMul(RSqrt(RMax(0, RSub(1, r2))), c)))
(* the second nearest of the others: is k that of i? *)
IsSecond(p, i, k) == k # i /\ RNear(VAngle(p[i], p[k]), Second(p, i), RAdd("1e-10", RMul("1e-7", Second(p, i))))
(* distance from v to the edge a-b *)
ToEdge(v, a, b) == LET n == VUnit(VCross(a, b)) IN
  IF RLe(0, VTriple(n, a, v)) /\ RLe(0, VTriple(n, v, b)) THEN RAbs(RAsin(RDot(n, v))) ELSE RMin(VAngle(v, a), VAngle(v, b))
ToBoundary(A, v) == RMinSeq(FlattenSeq([k \in 1..Len(A) |-> [i \in 1..Len(A[k].pts) |-> ToEdge(v, A[k].pts[i], A[k].pts[Nxt(A[k].pts, i)])]]))
=============================================================================
