-------------------------------- MODULE T03 --------------------------------
(* C03: decoded ranges of the real code against Plot!DecodeOK *)
EXTENDS Verdict, Plot
Snapped(i, k) == i.snap \/ i.lims[k].kind = "bin"
J(s, e) ==
  LET i == e.in o == e.out IN
  IF i.invalid THEN C("InvalidRefused", e.exc = "SystemExit")
  ELSE C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
     LET b == o.b st0 == IF i.kind = "stat" THEN "pseudo-log" ELSE i.style IN
     C("Decoded", Len(o.r) = 2 /\ DecodeOK(b, st0, i.lims, i.snap, o.r)) \o
     C("Ordered", RLe(o.r[1], RMul(o.r[2], "1.000002"))) \o
     If(i.lims[1].kind = "bin" /\ st0 # "none", C("BinRefLower", REq(o.r[1], b.d_min[BinRef(b, i.lims[1].n)]))) \o
     If(st0 # "none" /\ i.snap,
        C("Outward", /\ RLe(o.r[1], RMul(LimitValue(b, i.lims[1]), "1.0000002")) \/ REq(o.r[1], b.d_min[1])
                     /\ RLe(LimitValue(b, i.lims[2]), RMul(o.r[2], "1.000002")))) \o
     \* the same limits given again give the same range
     If(i.snap, C("Idempotent", RSeqClose(o.again, o.r, "1e-12", "0"))) \o
     \* the plot settings object reports the same range
     C("PlotRange", RSeqClose(o.plot, o.r, "1e-12", "0")))
=============================================================================
