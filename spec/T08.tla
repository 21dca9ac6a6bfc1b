-------------------------------- MODULE T08 --------------------------------
(* C08: fits, their errors and the resurfacing correction of the real code against Fit *)
EXTENDS Verdict, Fit, Chron
FitOK(o, fn, pres, d, y, err) == RNear(o[1], FitA0(fn, pres, d, y, err), "1e-5")
ErrOK(o, y, err) ==
   /\ RNear(o[2], LowerA0(o[1], y, err), "1e-9")
   /\ RNear(o[3], UpperA0(o[1], y, err), "1e-9")
\* age belonging to a constant, within the accuracy of the table lookup, ages limited to the model
AgeOK(t, a, p) == IF RLt(A0(p, 5), a) THEN RNear(t, 5, "1e-6") ELSE RClose(N1(p, t), RPow10(a), "2e-4")
J(s, e) ==
  LET i == e.in o == e.out IN
  IF e.ev = "empty" THEN C("EmptyRefused", e.exc = "SystemExit")
  ELSE C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "fit" ->
           C("LeastSquares", FitOK(o.a0, i.fn, i.pres, i.d, i.y, i.err)) \o
           C("StatedErrors", ErrOK(o.a0, i.y, i.err)) \o
           If(i.exact # "None", C("RecoversIsochron", RNear(o.a0[1], i.exact, "1e-6"))) \o
           C("ScalingShifts", \A k \in 1..3 : RNear(o.scaled[k], RAdd(o.a0[k], RLog10(i.scale)), "2e-5")) \o
           If(Len(i.d) = 1, C("SingleValueAsList", RSeqClose(o.single, o.a0, "0", "1e-6")))
      [] e.ev = "resurf" ->
           LET d == o.p0.d y == o.p0.y n == Len(d) adj == RSub(o.p1.y[1], y[1]) want == ResurfAdj(i.fn, d, y) IN
           C("OneConstantAdded", RSeqClose(o.p1.d, d, "0", "0") /\ \A k \in 1..n : RNear(RSub(o.p1.y[k], y[k]), o.adj, RMul("1e-9", RAdd(RMaxSeq(o.p1.y), y[1])))) \o
           C("LargestAgreesWithFit", RNear(o.adj, want, RAdd("1e-12", RMul("1e-4", RAdd(RAbs(want), y[n]))))) \o
           C("FractionalErrorKept", \A k \in 1..n : RClose(RDiv(o.p1.err[k], o.p1.y[k]), RDiv(o.p0.err[k], y[k]), "1e-6")) \o
           C("SingleBinUncorrected", n = 1 => REq(o.adj, 0)) \o
           C("ShowAllSameConstant", \A k \in DOMAIN o.pall.y : \E j \in DOMAIN o.u.d : REq(o.u.d[j], o.pall.d[k])
                  /\ RNear(RSub(o.pall.y[k], o.u.y[j]), o.adj, RMul("1e-9", RAdd(RMaxSeq(o.pall.y), RMaxSeq(o.u.y)))))
      [] e.ev = "age" ->
           LET q == o.p IN
           C("LeastSquares", FitOK(o.a0, i.fn, q.pres, q.d, q.y, q.err)) \o
           C("StatedErrors", ErrOK(o.a0, q.y, q.err)) \o
           C("AgeOfConstant", \A k \in 1..3 : AgeOK(o.t[k], o.a0[k], i.chron)) \o
           C("CountsOfFittedBins", REq(o.n, q.n) /\ REq(o.n_event, q.n_event)) \o
           C("ReferenceDensity", RClose(o.n_d, FnForm(i.fn, "cumulative", o.a0[1], i.refd), "1e-8")) \o
           C("BinRange", RSeqClose(o.bin_range, q.bin_range, "1e-12", "0")))
=============================================================================
