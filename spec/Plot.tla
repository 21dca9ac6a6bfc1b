-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* From histogram to plotted points (Cratercount.getplotdata) and range    *)
(* decoding (Cratercount.decode_range).                                    *)
(***************************************************************************)
EXTENDS Binning

Presentations == {"cumulative", "incremental", "differential", "R-plot", "Hartmann"}
NonEmpty(b) == SelectSeq([i \in 1..NB(b) |-> i], LAMBDA i : RLt(0, b.n[i]))
InRange(b, r, showall) == SelectSeq(NonEmpty(b),
     LAMBDA i : RLt(IF showall THEN "0" ELSE r[1], b.d_mean[i]) /\ RLt(b.d_mean[i], r[2]))

\* slope-dependent correction of the bias of a bin of ratio beta (Michael 2013, Eq. 2)
BiasCorrection(beta, k) ==
  IF RLt(RAbs(k), "1e-5") THEN "1"
  ELSE LET h == RDiv(k, 2) IN
       RDiv(RSub(RPow(beta, h), RPow(beta, RNeg(h))),
            RMul(RSub(RSqrt(beta), RDiv(1, RSqrt(beta))), k))
CumPF(coef, d) == RPow10(RPoly(coef, RLog10(d)))
Slope(coef, d, beta) ==
  IF Len(coef) = 0 THEN "-3"
  ELSE RDiv(RLog10(RDiv(CumPF(coef, RMul(d, RSqrt(beta))), CumPF(coef, RDiv(d, RSqrt(beta))))), RLog10(beta))

PointD(p, b, i) == IF p = "cumulative" THEN b.d_min[i] ELSE b.d_mean[i]
Density(p, b, i, area) == RDiv(RDiv(b.n[i], b.bin_width[i]), area)
\* value before any correction (the error bar refers to this)
RawY(p, b, i, area, adj) ==
  CASE p = "cumulative"   -> RAdd(RDiv(b.ncum[i], area), adj)
    [] p = "incremental"  -> RDiv(b.n[i], area)
    [] p = "Hartmann"     -> RMul(RMul(Density(p, b, i, area), b.d_mean[i]), RSub(RSqrt(2), 1))
    [] p = "differential" -> Density(p, b, i, area)
    [] p = "R-plot"       -> RMul(Density(p, b, i, area), RPow(b.d_mean[i], 3))
PointY(p, b, i, area, adj, coef) ==
  IF p = "differential"
  THEN LET beta == RPow(RDiv(b.d_mean[i], b.d_min[i]), 2)
       IN RDiv(RawY(p, b, i, area, adj), BiasCorrection(beta, Slope(coef, b.d_mean[i], beta)))
  ELSE RawY(p, b, i, area, adj)
PointErr(p, b, i, area, adj) ==
  RDiv(RawY(p, b, i, area, adj), RSqrt(IF p = "cumulative" THEN b.ncum_event[i] ELSE b.n_event[i]))

\* extent of the selected range on the grid: lower end moved down, upper end up, to boundaries
\* (a limit within 0.001 dex of a boundary counts as on it)
ExtentLow(s, r)  == Edge(s, EdgeBelow(s, RMul(r, RPow10("0.001")), 0), 0)
ExtentHigh(s, r) == LET x == RMul(r, RPow10("-0.001")) k == EdgeBelow(s, x, 0)
                    IN IF RClose(Edge(s, k, 0), x, "1e-9") THEN Edge(s, k, 0) ELSE Edge(s, k+1, 0)
-----------------------------------------------------------------------------
(* Range decoding.  A limit is [kind |-> "bin", n |-> N] or [kind |-> "val", v |-> real].          *)
BinRef(b, n) == LET ne == NonEmpty(b) c == Len(ne)
                    m == IF n > c THEN c ELSE IF n < -c THEN -c ELSE n
                IN IF m >= 1 THEN ne[m] ELSE IF m = 0 THEN ne[1] ELSE ne[c + 1 + m]
LimitValue(b, lim) == IF lim.kind = "bin" THEN b.d_mean[BinRef(b, lim.n)] ELSE RNum(lim.v)

\* x lies on boundary e within user rounding (sharp up to 5e-8, undecided up to 2e-6)
On(e, x)    == RClose(e, x, "5e-8")
Near(e, x)  == RClose(e, x, "2e-6")
\* boundaries d_min[i] a lower limit x may snap to: the last boundary <= x (or the first one)
LowerSnap(b, x) ==
  LET ok(i) == LET e == b.d_min[i] IN
                 /\ i = 1 \/ RLe(e, x) \/ Near(e, x)
                 /\ i = NB(b) \/ Near(b.d_min[i+1], x) \/ RLt(x, b.d_min[i+1])
                 /\ ~(i < NB(b) /\ On(b.d_min[i+1], x))
  IN {i \in 1..NB(b) : ok(i)}
UpperSnap(b, x) ==
  LET ok(i) == LET e == b.d_max[i] IN
                 /\ RLe(x, e) \/ Near(e, x)
                 /\ i = 1 \/ Near(b.d_max[i-1], x) \/ RLt(b.d_max[i-1], x)
                 /\ ~(i > 1 /\ On(b.d_max[i-1], x))
  IN {i \in 1..NB(b) : ok(i)}

DecodeOK(b, style, lims, snap, res) ==
  LET v0 == LimitValue(b, lims[1])
      w  == LimitValue(b, lims[2])
      v1 == IF RLt(w, v0) THEN v0 ELSE w
      s0 == snap \/ lims[1].kind = "bin"
      s1 == snap \/ lims[2].kind = "bin"
      last == b.d_max[NB(b)]
  IN /\ IF style = "none" \/ ~s0 \/ REq(v0, 0) THEN RClose(res[1], v0, "1e-12")
        ELSE \E i \in LowerSnap(b, v0) : RClose(res[1], b.d_min[i], "1e-12")
     /\ IF style = "none" \/ ~s1 THEN RClose(res[2], v1, "1e-12")
        ELSE IF RLt(last, v1) THEN RClose(res[2], v1, "1e-12")
        ELSE \/ \E i \in UpperSnap(b, v1) : RClose(res[2], b.d_max[i], "1e-12")
             \/ RNear(v1, last, "1.1e-7") /\ RClose(res[2], v1, "1e-12")
=============================================================================
