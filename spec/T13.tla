-------------------------------- MODULE T13 --------------------------------
(* C13: files and results table of real runs against Output *)
EXTENDS Verdict, Output, Format
Set(q) == {q[i] : i \in 1..Len(q)}
Request(i, o) == [pres |-> i.pres, formats |-> Set(i.formats), givenFormats |-> i.formats # <<>>, out |-> i.out, outIsDir |-> i.outIsDir, replay |-> i.replay, stem |-> i.stem,
                  system |-> i.system, dmin |-> i.dmin, sources |-> i.sources, ages |-> Len(o.fresh), dated |-> o.dated, table |-> i.table]
RefName(d) == "N(" \o d \o ")"
Header(d) == <<"Name", "Area", "Binning", "d_min", "d_max", "Method", "Resurf", "N", "N_event", "Sort_order", "Age", "Age-", "Age+", "a0", "a0-", "a0+",
               RefName(d), RefName(d) \o "-", RefName(d) \o "+", "Source", " ", "Range", "Age", RefName(d), "Age", RefName(d)>>
\* numeral t is v to n figures (or both are the same non-finite value); the two computations of v may differ in the last places
Cell(t, v, n) == IF RIsFinite(v) THEN RIsNum(t) /\ RIsFinite(t) /\ (DRounded(t, v, n) \/ DRounded(t, RMul(v, "1.000000001"), n) \/ DRounded(t, RMul(v, "0.999999999"), n))
                 ELSE RClose(t, v, 0)
RowOk(x, f, i) ==       \* named clauses of one row
  LET c == x.cells IN
  C("RowName", c[1] = f.name /\ c[20] = f.source) \o
  C("RowSettings", c[3] = f.binning /\ c[6] = f.type /\ c[7] = f.resurf /\ Cell(c[2], f.area, 5)) \o
  C("RowRange", Cell(c[4], f.range[1], 2) /\ Cell(c[5], f.range[2], 2) /\ RangeShown(x.range, f.range[1], f.range[2], 2)) \o
  C("RowCounts", RClose(c[8], f.n, "1e-9") /\ RClose(c[9], f.n_event, "1e-9")) \o
  C("RowAge", \A k \in 1..3 : Cell(c[10 + k], f.t[k], 3)) \o
  C("RowFit", \A k \in 1..3 : Cell(c[13 + k], f.a0[k], 4)) \o
  C("RowDensity", \A k \in 1..3 : Cell(c[16 + k], f.nd[k], 3)) \o
  C("RowTexts", Has(x.la, "v") /\ Has(x.ma, "v") /\ Has(x.ld, "v") /\ Has(x.md, "v")) \o
  If(Has(x.la, "v") /\ Has(x.ma, "v") /\ Has(x.ld, "v") /\ Has(x.md, "v") /\ RLt(0, f.t[1]) /\ RLt(f.t[1], 5) /\ RLt(f.t[1], f.t[3]) /\ RLt(f.t[2], f.t[1]),
     LET u == UnitOf(f.t[1]) IN
     C("RowAgeText", /\ AgeShown(x.la, f.t[1], RSub(f.t[3], f.t[1]), RSub(f.t[1], f.t[2]), 3, u, TRUE)
                     /\ x.age = AgeLatex(x.la, i.mu = 1, u) /\ x.ma = x.la /\ x.mage = AgeMathml(x.la, i.mu = 1, u)) \o
     C("RowDensityText", /\ DensityShown(x.ld, f.nd[1], f.nd[3], f.nd[2], 3, FALSE, TRUE)
                         /\ x.dens = DensityLatex(x.ld, "km-2") /\ x.md = x.ld /\ x.mdens = DensityMathml(x.ld, "km-2")))
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    C("Runs", o.exit = "") \o
    If(o.exit = "",
      LET r == TLCEval(Request(i, o)) IN
      C("FilesWritten", Set(o.created) \cup Set(o.changed) = FilesOf(r)) \o
      C("OthersUntouched", o.removed = <<>> /\ Set(o.changed) \subseteq FilesOf(r)) \o
      If(i.again, C("SecondRunSameFiles", Set(o.again) = FilesOf(r))) \o
      If(o.table,
        C("TableHeader", o.header = Header(i.refd) /\ o.prefix = 2) \o
        C("RowPerAnalysis", Len(o.rows) = Len(o.fresh)) \o
        If(Len(o.rows) = Len(o.fresh),
          C("RowShape", \A k \in 1..Len(o.rows) : Len(o.rows[k].cells) = Len(o.header) + 1) \o
          If(\A k \in 1..Len(o.rows) : Len(o.rows[k].cells) = Len(o.header) + 1,
            C("RankedByAge", IsRanking([k \in 1..Len(o.rows) |-> IF RIsNum(o.rows[k].cells[10]) THEN StrInt(o.rows[k].cells[10]) ELSE 99], [k \in 1..Len(o.rows) |-> o.fresh[k].t[1]])) \o
            Flat([k \in 1..Len(o.rows) |-> RowOk(o.rows[k], o.fresh[k], i)]))))))
=============================================================================
