-------------------------------- MODULE T15 --------------------------------
(* C15: printed numbers of the real code against Format *)
EXTENDS Verdict, Format
Tok(k) == IsRec(k)
Errs(i) == RLt(0, i.e1)
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "sig" ->
           C("SignificantFigures", ShowsFigs(o.t, i.v, i.n)) \o
           C("ListsElementwise", Len(o.list) = Len(i.vs) /\ \A k \in DOMAIN i.vs : ShowsFigs(o.list[k], i.vs[k], i.n)) \o
           C("Reprinted", ShowsFigs(o.again, o.t, i.n) /\ (RLt(RAbs(o.t), RPow10(i.n)) => o.again = o.t))
      [] e.ev = "age" ->
           LET u == IF i.unit = "" THEN UnitOf(i.age) ELSE i.unit errors == Errs(i) IN
           C("AgeWellFormed", Tok(o.k) /\ Tok(o.m)) \o
           If(Tok(o.k) /\ Tok(o.m),
              C("AgeValue", AgeShown(o.k, i.age, i.e1, i.e2, i.sf, u, errors)) \o
              C("AgeUnit", o.text = AgeLatex(o.k, i.mu, u)) \o
              C("MathmlSame", o.m = o.k /\ o.mtext = AgeMathml(o.k, i.mu, u)) \o
              C("ErrorsSuppressed", o.noerr = AgeLatex([o.k EXCEPT !.up = "", !.dn = ""], i.mu, u)))
      [] e.ev = "simple" ->
           LET u == UnitOf(i.age) p == StrSplit(o.text, " ") IN
           C("SimpleAge", Len(p) = 2 /\ p[2] = u /\ DRounded(p[1], In(i.age, u), 6)
               /\ (RLe("0.0001", In(i.age, u)) => Plain(p[1]) /\ (Decimals(p[1]) = 0 \/ ~StrEnds(p[1], "0"))))
      [] e.ev = "dens" ->
           C("DensityWellFormed", Tok(o.k) /\ Tok(o.m)) \o
           If(Tok(o.k) /\ Tok(o.m),
              C("DensityValue", DensityShown(o.k, i.v, i.e1, i.e2, i.sf, i.force, i.errors)) \o
              C("DensityText", o.text = DensityLatex(o.k, i.unit)) \o
              C("DensityMathml", o.m = o.k /\ o.mtext = DensityMathml(o.k, i.unit)))
      [] e.ev = "range" -> C("DiameterRange", RangeShown(o.t, i.d[1], i.d[2], i.sf))
      [] e.ev = "pct" -> C("Percentile", PercentShown(o.t, i.p, o.tc))
      [] e.ev = "drawn" ->
           \* labels of a drawn plot
           LET u == UnitOf(o.t[1]) IN
           C("DrawnWellFormed", Tok(o.age) /\ Tok(o.dens) /\ Tok(o.area)) \o
           If(Tok(o.age) /\ Tok(o.dens) /\ Tok(o.area),
              C("DrawnAge", /\ AgeShown(o.age, o.t[1], RSub(o.t[3], o.t[1]), RSub(o.t[1], o.t[2]), i.sf, u, RLt(0, RSub(o.t[3], o.t[1])))
                            /\ o.agetext = AgeLatex(o.age, i.mu, u)) \o
              C("DrawnDensity", /\ DensityShown(o.dens, o.nd[1], o.nd[3], o.nd[2], 3, FALSE, TRUE)
                                /\ o.denstext = DensityLatex(o.dens, "km-2") /\ REq(o.refd, i.refd)) \o
              C("DrawnRange", i.stat \/ o.type # "poisson" \/ RangeShown(o.rangetext, o.range[1], o.range[2], 2)) \o
              C("DrawnCount", IF RLt(RAbs(RSub(o.n_event, o.n)), "0.001") THEN RClose(o.counts[1], o.n, "1e-5") /\ Len(o.counts) = 1
                              ELSE Len(o.counts) = 2 /\ RNear(o.counts[1], o.n, "0.0501") /\ REq(o.counts[2], o.n_event)) \o
              C("DrawnArea", DensityShown(o.area, i.area, 0, 0, 3, FALSE, FALSE) /\ o.areatext = DensityLatex(o.area, "km2")) \o
              C("DrawnName", o.name = i.name)))
=============================================================================
