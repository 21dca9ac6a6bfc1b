---------------------------- MODULE Uncertainty ----------------------------
(***************************************************************************)
(* Uncertainty maps: a simulated count for each age (columns, oldest left) *)
(* and each area (rows, smallest at the bottom): the number of craters     *)
(* above the minimum diameter is drawn from Poisson(lambda), and the age   *)
(* measured from it has the Gamma(k+1) distribution over lambda, up to the *)
(* end of the chronology at 5 Ga.                                          *)
(***************************************************************************)
EXTENDS TimePlot, TLC
Last == "5"
\* [n ages, from the youngest]: equal ratios from tmin to the crossover, equal steps from there to tmax
LinCols(n, w) == RRound(RMul(n, w))
GridAge(n, w, tmin, tc, tmax, j) ==
  LET nl == LinCols(n, w) ng == n - nl IN
  IF j <= ng THEN (IF ng = 1 THEN tmin ELSE RMul(tmin, RPow(RDiv(tc, tmin), RDiv(j - 1, ng - 1))))
  ELSE RAdd(tc, RMul(RSub(tmax, tc), RDiv(j - ng, nl)))
GridArea(m, y, r) == RPow10(RAdd(y[1], RMul(RSub(y[2], y[1]), RDiv(r - 1, m - 1))))
\* time shown at a position of the axes
AgeAt(axes, x) ==
  LET q == {a \in DOMAIN axes : RLe(axes[a].x0, x) /\ RLe(x, axes[a].x1)} ax == axes[CHOOSE a \in q : TRUE]
      f == RDiv(RSub(x, ax.x0), RSub(ax.x1, ax.x0)) IN
  IF ax.log THEN RMul(ax.t0, RPow(RDiv(ax.t1, ax.t0), f)) ELSE RSub(ax.t0, RMul(RSub(ax.t0, ax.t1), f))
\* number of craters shown: everything from 8 on alike
Shown8(k) == IF k > 8 THEN 8 ELSE k
KLabel(k) == IF k >= 7 THEN "7+" ELSE StrOfInt(k)
\* expectation and variance of min(K, 8)
Tail8(lam) == TLCEval([m \in 0..7 |-> RSub(1, RGammaQ(m + 1, lam))])
E8(t) == RSum([m \in 1..8 |-> t[m-1]])
V8(t) == RMax(0, RSub(RSum([m \in 1..8 |-> RMul(2 * m - 1, t[m-1])]), RPow(E8(t), 2)))
\* age at a quantile of the distribution of k craters, when lambda is l1 per unit N(1) and the chronology has the coefficients p
CumK(k, x) == RSub(1, RGammaQ(k + 1, x))
RECURSIVE BisectLam(_,_,_,_,_)
BisectLam(k, target, lo, hi, n) == IF n = 0 THEN RPow10(RDiv(RAdd(lo, hi), 2)) ELSE
  LET m == RDiv(RAdd(lo, hi), 2) IN IF RLt(CumK(k, RPow10(m)), target) THEN BisectLam(k, target, m, hi, n-1) ELSE BisectLam(k, target, lo, m, n-1)
RECURSIVE BisectAge(_,_,_,_,_)
BisectAge(p, target, lo, hi, n) == IF n = 0 THEN RDiv(RAdd(lo, hi), 2) ELSE
  LET m == RDiv(RAdd(lo, hi), 2) IN IF RLt(N1(p, m), target) THEN BisectAge(p, target, m, hi, n-1) ELSE BisectAge(p, target, lo, m, n-1)
MeasuredAge(p, l1, k, q) ==
  LET top == RMul(l1, N1(p, Last)) lm == BisectLam(k, RMul(q, CumK(k, top)), RMin(RSub(RLog10(top), 12), "-4"), RLog10(top), 48) IN BisectAge(p, RDiv(lm, l1), 0, Last, 45)
Sigma == [lower |-> "0.15865525393145707", upper |-> "0.8413447460685429"]
Spread(lower, upper) == RSub(RSqrt(RDiv(upper, lower)), 1)
\* regions of the map nothing can be measured in
Area4Pi(radius) == RMul(RMul(4, "3.141592653589793"), RMul(radius, radius))
Globe(body) == CASE body = "Moon" -> Area4Pi("1737.4") [] body = "Mars" -> Area4Pi("3389.5") [] body = "Mercury" -> Area4Pi("2439.7") [] OTHER -> "1e12"
Saturated(p, ratio, ef, t) == RLt(ef, RMul(N1(p, t), ratio))
\* even-odd rule for a polygon with corners v
RECURSIVE Crossings(_,_,_,_,_)
Crossings(v, x, y, k, n) == IF k > Len(v) THEN n % 2 = 1 ELSE
  LET a == v[k] b == v[IF k = Len(v) THEN 1 ELSE k + 1]
      hit == (RLt(y, a[2]) # RLt(y, b[2])) /\ RLt(x, RAdd(a[1], RMul(RSub(b[1], a[1]), RDiv(RSub(y, a[2]), RSub(b[2], a[2]))))) IN
  Crossings(v, x, y, k + 1, IF hit THEN n + 1 ELSE n)
Inside(v, x, y) == Crossings(v, x, y, 1, 0)
=============================================================================
