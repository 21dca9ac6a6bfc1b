----------------------------- MODULE Autoscale -----------------------------
(***************************************************************************)
(* Automatic axis ranges (Craterplotset.autoscale) and tick positions      *)
(* (gm.ticks).  All coordinates are log10.  An extent is                   *)
(* [x0, x1, y0, y1] of the plotted points; the axes are two whole-decade   *)
(* intervals around it.                                                    *)
(***************************************************************************)
EXTENDS Nums

Eps == "1e-9"
MarginL == "0.3"       \* empty space left of the first point
MarginR == "0.8"       \* and right of the last
MarginY(diff) == IF diff THEN "0.6" ELSE "0.3"
\* floor/ceil with both answers where the value is an integer up to rounding
Floors(x) == {RFloor(RAdd(x, Eps)), RFloor(RSub(x, Eps))}
Ceils(x)  == {RCeil(RAdd(x, Eps)), RCeil(RSub(x, Eps))}

Whole(r) == REq(r[1], RFloor(r[1])) /\ REq(r[2], RFloor(r[2])) /\ RLt(r[1], r[2])
ContainsX(x0, x1, xr) == /\ RLe(xr[1], RAdd(RSub(x0, MarginL), Eps))
                         /\ RLe(RSub(RAdd(x1, MarginR), Eps), xr[2])
ContainsY(y0, y1, yr, diff) == /\ RLe(yr[1], RAdd(RSub(y0, MarginY(diff)), Eps))
                               /\ RLe(RSub(RAdd(y1, MarginY(diff)), Eps), yr[2])
Mag(r) == RFloor(RSub(r[2], r[1]))
Aspect(xr, yr, diff) == Mag(yr) = (IF diff THEN 2 ELSE 1) * Mag(xr)
MaxI(a, b) == IF a > b THEN a ELSE b
\* no axis is longer than the margins and the aspect require
Widths(lo, hi, m0, m1) == {c - f : c \in Ceils(RAdd(hi, m1)), f \in Floors(RSub(lo, m0))}
Minimal(e, xr, yr, diff) ==
  \E dx \in Widths(e.x0, e.x1, MarginL, MarginR), dy \in Widths(e.y0, e.y1, MarginY(diff), MarginY(diff)) :
     Mag(xr) = IF diff THEN MaxI(dx, (dy + 1) \div 2) ELSE MaxI(dx, dy)
Acceptable(e, xr, yr, diff) ==
  Whole(xr) /\ Whole(yr) /\ ContainsX(e.x0, e.x1, xr) /\ ContainsY(e.y0, e.y1, yr, diff) /\ Aspect(xr, yr, diff)

\* where nothing can be plotted
DefaultX(p) == CASE p \in {"cumulative", "differential"} -> <<-3, 2>> [] p = "R-plot" -> <<-2, 3>> [] p = "Hartmann" -> <<"-3.15", "2.56">>
DefaultY(p) == CASE p = "cumulative" -> <<-4, 1>> [] p = "differential" -> <<-5, 5>> [] p = "R-plot" -> <<-4, 1>> [] p = "Hartmann" -> <<-8, 5>>
-----------------------------------------------------------------------------
(* the way the implementation distributes surplus decades (one of the acceptable choices) *)
Tight(e, diff) == [x |-> <<RFloor(RSub(e.x0, MarginL)), RCeil(RAdd(e.x1, MarginR))>>,
                   y |-> <<RFloor(RSub(e.y0, MarginY(diff))), RCeil(RAdd(e.y1, MarginY(diff)))>>]
BigLeft(e, t) == RLt(RAdd(RSub(t.x[2], e.x1), MarginR), RAdd(RSub(e.x0, t.x[1]), MarginL))
BigBottom(e, t) == RLt(RSub(t.y[2], e.y1), RSub(e.y0, t.y[1]))
Spread(r, d, bigFirst) ==       \* d surplus decades: the larger half goes to the emptier side's opposite
  LET a == d \div 2 b == d - a IN IF bigFirst THEN <<r[1] - a, r[2] + b>> ELSE <<r[1] - b, r[2] + a>>
Algo(e, diff) ==
  LET t == Tight(e, diff) bl == BigLeft(e, t) bb == BigBottom(e, t) dx == Mag(t.x) dy0 == Mag(t.y) IN
  IF diff
  THEN LET y1 == IF dy0 % 2 = 1 THEN (IF bb THEN <<t.y[1], t.y[2] + 1>> ELSE <<t.y[1] - 1, t.y[2]>>) ELSE t.y
           d == Mag(y1) \div 2 - dx IN
       IF d < 0 THEN [x |-> t.x, y |-> <<y1[1] + d, y1[2] - d>>]
       ELSE [x |-> Spread(t.x, d, bl), y |-> y1]
  ELSE LET d == dy0 - dx IN
       IF d < 0 THEN [x |-> t.x, y |-> Spread(t.y, -d, bb)]
       ELSE [x |-> Spread(t.x, d, ~bl), y |-> t.y]
-----------------------------------------------------------------------------
(* ticks: multiples of a step 1, 2 or 5 times a power of ten, the first at or below the lower end,
   the last at or above the upper end, no tick beyond need                                          *)
NiceStep(s) == \E k \in -12..12, m \in {1, 2, 5} : RClose(s, RMul(m, RPow10(k)), "1e-9")
(* minor ticks divide a step evenly, into nice steps or quarters of ten *)
MinorOK(t, m) == LET s == RDiv(RSub(t[2], t[1]), m) IN m >= 1 /\ (NiceStep(s) \/ NiceStep(RMul(s, 4)))
TicksOK(t, lo, hi) ==
  LET n == Len(t) s == RSub(t[2], t[1]) tol == RMul(s, "1e-7") IN
  /\ NiceStep(s)
  /\ \A k \in 2..n : RNear(RSub(t[k], t[k-1]), s, tol)
  /\ \A k \in 1..n : RNear(RDiv(t[k], s), RRound(RDiv(t[k], s)), "1e-6")
  /\ RLe(t[1], RAdd(lo, tol)) /\ RLe(RSub(hi, tol), t[n])
  /\ RLt(RSub(lo, t[1]), RAdd(s, tol)) /\ RLt(RSub(t[n], hi), RAdd(s, tol))
=============================================================================
