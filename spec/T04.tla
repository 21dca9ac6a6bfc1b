-------------------------------- MODULE T04 --------------------------------
(* C04: recorded plot points of the real code against Plot *)
EXTENDS Verdict, Plot
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    LET b == o.b p == i.pres pt == o.p
        sel == IF i.norange THEN NonEmpty(b) ELSE InRange(b, i.range, i.showall)
        n == Len(sel)
        shape == Len(pt.d) = n /\ Len(pt.y) = n /\ Len(pt.err) = n
    IN C("ExactlyTheBinsInRange", shape) \o
       If(shape,
          C("Diameter", \A k \in 1..n : RClose(pt.d[k], PointD(p, b, sel[k]), "1e-12")) \o
          C("Density", \A k \in 1..n : RClose(pt.y[k], PointY(p, b, sel[k], i.area, 0, i.coef), "1e-9")) \o
          C("ErrorBar", \A k \in 1..n : RClose(pt.err[k], PointErr(p, b, sel[k], i.area, 0), "1e-9"))) \o
       C("CraterTotal", RNear(pt.n, RSum([k \in 1..n |-> b.n[sel[k]]]), "1e-9")) \o
       C("EventTotal", RNear(pt.n_event, RSum([k \in 1..n |-> b.n_event[sel[k]]]), "1e-9")) \o
       \* (an extent of a pre-binned table with gaps, or of a range that shows points outside it, need not enclose them)
       If(n > 0 /\ ~i.showall /\ (i.kind # "stat" \/ i.norange),
          C("ExtentEncloses", RLe(pt.bin_range[1], RMul(b.d_min[sel[1]], "1.000000001"))
                           /\ RLe(b.d_max[sel[n]], RMul(pt.bin_range[2], "1.000000001")))) \o
       If(n > 0 /\ i.norange, C("DataExtent", RClose(pt.bin_range[1], b.d_min[sel[1]], "1e-12") /\ RClose(pt.bin_range[2], b.d_max[sel[n]], "1e-12"))) \o
       If(~i.norange /\ i.style # "none",
          LET lo == IF REq(i.range[1], 0) THEN b.d_min[1] ELSE i.range[1]
              hi == IF i.range[2] = "inf" THEN b.d_max[NB(b)] ELSE i.range[2]
          IN If(RLt(RMul(lo, "1.006"), hi),
                C("ExtentOnGrid", RClose(pt.bin_range[1], ExtentLow(i.style, lo), "1e-9")
                               /\ RClose(pt.bin_range[2], ExtentHigh(i.style, hi), "1e-9")))) \o
       \* the public presentation name is recorded with the points
       C("Labelled", pt.presentation = p))
=============================================================================
