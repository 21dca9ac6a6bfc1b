-------------------------------- MODULE T05 --------------------------------
(* C05: Poisson ages of the real code against Age *)
EXTENDS Verdict, Age
StepTol == "1.008"         \* the code samples lambda at 0.003 dex (0.7 %)
Clip(x, r) == RMin(RMax(x, r[1]), r[2])
RowsIn(i, lo, hi) == \* pre-binned: events of the rows inside the range; a row extends to the next one, the last one in the same ratio
  LET R == i.rows n == Len(R)
      dmax(j) == IF j < n THEN R[j+1][1] ELSE RMul(R[n][1], RDiv(R[n][1], R[n-1][1]))
  IN RSum([j \in 1..n |-> IF RLe(lo, R[j][1]) /\ RLe(dmax(j), hi) THEN R[j][2] ELSE "0"])
J(s, e) ==
  LET i == e.in o == e.out buffered == i.type = "b-poisson" IN
  IF buffered /\ i.perimeter = "None" THEN C("NoPerimeterRefused", e.exc = "SystemExit")
  ELSE C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    LET lo == Clip(i.range[1], i.pfrange) hi == Clip(i.range[2], i.pfrange)
        k == IF i.kind = "stat" THEN RowsIn(i, lo, hi) ELSE RNum(RCountIn(i.diam, lo, hi))
        unit == IF buffered THEN LambdaBuffered1(i.coef, lo, hi, i.area, i.perimeter)
                ELSE RMul(i.area, RSub(Cum(i.coef, 0, lo), Cum(i.coef, 0, hi)))     \* lambda per unit N(1)
        lam(t) == RMul(unit, N1(i.chron, t))
        \* ages limited by the 5 Ga end of the model (or an empty range) are only required to be ordered
        full == RLt(lo, hi) /\ RLt("1e-12", RSub(1, RGammaQ(RAdd(k, 1), lam(5)))) /\ RLt(RGammaQ(RAdd(k,1), lam(5)), "1e-6")
                /\ RLt(lam("1e-6"), RAdd("1e-3", RDiv(k, 1000)))
    IN C("CountsCratersInRange", REq(o.n, k) /\ REq(o.n_event, k)) \o
       C("Ordered", (REq(lo, hi) /\ RIsNaN(o.t[1])) \/ (RLe(o.t[2], o.t[1]) /\ RLe(o.t[1], o.t[3]))) \o
       If(full,
          C("PoissonQuantiles", \A q \in 1..3 :
             /\ RLe(CumProb(k, lam(RDiv(o.t[q], StepTol))), Percentile[q])
             /\ RLe(Percentile[q], CumProb(k, lam(RMul(o.t[q], StepTol))))) \o
          C("DistributionFunction", \A j \in DOMAIN o.cdf :
             LET t == o.cdf[j][1] v == o.cdf[j][2] IN
             /\ RLe(CumProb(k, lam(RDiv(t, StepTol))), RAdd(v, "1e-6"))
             /\ RLe(v, RAdd(CumProb(k, lam(RMul(t, StepTol))), "1e-6"))) \o
          C("MoreCratersOlder", RLe(RMul(o.t[1], "0.999999"), o.more[1])) \o
          C("SmallerAreaOlder", RLe(RMul(o.t[1], "0.999999"), o.smaller[1]))) \o
       C("DensityOfAge", \A q \in 1..3 : RNear(o.a0[q], A0(i.chron, o.t[q]), "1e-9")) \o
       C("ReferenceDensity", REq(o.a0[1], 0) \/ RClose(o.n_d, Cum(i.coef, o.a0[1], i.refd), "1e-9")) \o
       C("OrderIrrelevant", RSeqClose(o.shuffled, o.t, "1e-12", "0")) \o
       C("BinningIrrelevant", RSeqClose(o.rebinned, o.t, "1e-12", "0")))
=============================================================================
