-------------------------------- MODULE T14 --------------------------------
(* C14: files written by merging and converting, against what Exchange says they hold *)
EXTENDS Survey, Exchange, Binning
\* the same bag of pairs within tolerances (sorting alone would tell apart what rounding made equal)
Close(x, y, td, tf) == RClose(x[1], y[1], td) /\ RClose(x[2], y[2], tf)
AtMost(p, q, td, tf) == \A k \in 1..Len(p) : Cardinality({j \in 1..Len(p) : p[j] = p[k]}) <= Cardinality({j \in 1..Len(q) : Close(q[j], p[k], td, tf)})
Paired(p, q, td, tf) == Len(p) = Len(q) /\ AtMost(p, q, td, tf) /\ AtMost(q, p, td, tf)
Ratio(p, q, lo, hi) == RLe(RMul(lo, q), p) /\ RLe(p, RMul(hi, q))
\* what a file named in a command says: its text, or for a shapefile the count read from it (C23) and its rings
Count(s, f) == CASE Ext(f) = "diam" -> Diam(Parsed(s.before[f].text))
                 [] Ext(f) = "scc" -> Scc(Parsed(s.before[f].text))
                 [] Ext(f) = "shp" -> [ok |-> TRUE] @@ s.before[f].read
                 [] OTHER -> Bad
FileRings(g) == FlattenSeq([k \in 1..Len(g) |-> [j \in 1..Len(g[k]) |-> LET q == Ring(g[k][j]) IN [pts |-> q, hole |-> RLt("0", Signed(q))]]])
Area0(s, f) == IF Ext(f) = "shp" THEN FileRings(s.before[f].area) ELSE Boundary(Parsed(s.before[f].text))
SameRing(a, b, tol) == a.hole = b.hole /\ Len(a.pts) = Len(b.pts) /\ \A i \in 1..Len(a.pts) : \E j \in 1..Len(b.pts) : RLe(VAngle(a.pts[i], b.pts[j]), tol)
SameRings(A, B, tol) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : Cardinality({j \in 1..Len(B) : SameRing(A[k], B[j], tol)}) >= 1 /\ Cardinality({j \in 1..Len(B) : SameRing(B[k], A[j], tol)}) >= 1
\* ---------------------------------------------------------------- merged
RECURSIVE Union(_, _)
Union(q, k) == IF k = 0 THEN <<>> ELSE Union(q, k-1) \o q[k]
Merged(s, cs) ==
  LET es == TLCEval(Parsed(s.text)) m == TLCEval(Diam(es)) p == ScalarOf(es, "perimeter") known == \A k \in 1..Len(cs) : cs[k].perimeter # ""
      d == Union([k \in 1..Len(cs) |-> cs[k].diam], Len(cs)) f == Union([k \in 1..Len(cs) |-> cs[k].frac], Len(cs)) IN
  C("MergedReadable", m.ok) \o
  If(m.ok, C("MergedNumber", Len(m.diam) = Len(d)) \o C("MergedCraters", Paired(TLCEval(Pairs(m.diam, m.frac)), TLCEval(Pairs(d, f)), "5.1e-6", "5.1e-6")) \o
     C("MergedArea", RClose(m.area, RSum([k \in 1..Len(cs) |-> cs[k].area]), "1e-9")) \o
     C("MergedPerimeter", IF known THEN IsNumber(p) /\ RClose(p, RSum([k \in 1..Len(cs) |-> cs[k].perimeter]), "1e-9") ELSE p = "") \o
     C("MergedReadsBack", Has(s.back, "diam") /\ SamePairs(TLCEval(Pairs(s.back.diam, s.back.frac)), TLCEval(Pairs(m.diam, m.frac))) /\ RClose(s.back.area, m.area, "1e-12")))
\* ---------------------------------------------------------------- binned
RECURSIVE Occupied(_, _, _)
Occupied(d, k, hi) == IF k > hi THEN <<>> ELSE (IF RLt("0", RCountIn(d, Edge("pseudo-log", k, 0), Edge("pseudo-log", k+1, 0))) THEN <<k>> ELSE <<>>) \o Occupied(d, k+1, hi)
Binned(s, c) ==
  IF c.diam = <<>> THEN C("NoBins", StatRows(s.text) = <<>>) ELSE
  LET rows == TLCEval(StatRows(s.text)) area == c.area
      hi == EdgeIndex("pseudo-log", RMaxSeq(c.diam), 0)
      E(k) == Edge("pseudo-log", k, 0) N(k) == RSumIn(c.diam, c.frac, E(k), E(k+1))
      ks == TLCEval(SelectSeq(Occupied(c.diam, EdgeIndex("pseudo-log", RMinSeq(c.diam), 0) - 1, hi + 1), LAMBDA k : RLt("0", N(k))))
      num(k) == RSumIn(c.diam, c.frac, E(k), "1e300")
      row(i) == LET k == ks[i] n == N(k) m == num(k) w == RSub(E(k+1), E(k)) ev == RNum(RCountIn(c.diam, E(k), E(k+1))) IN
        <<E(k), n, RDiv(n, area), RDiv(RDiv(n, area), RSqrt(n)), m, RDiv(m, area), RDiv(RDiv(m, area), RSqrt(m)), RSqrt(RMul(E(k), E(k+1))), RDiv(RDiv(n, w), area), RDiv(RDiv(RDiv(n, w), area), RSqrt(ev)), ev>>
      tol == <<"1e-9", "5.1e-5", "5.1e-4", "5.1e-4", "5.1e-5", "5.1e-4", "5.1e-4", "5.1e-4", "5.1e-4", "5.1e-4", "5.1e-5">>
  IN C("EveryBin", Len(rows) = Len(ks)) \o
     If(Len(rows) = Len(ks), C("Columns", \A i \in 1..Len(rows) : Len(rows[i]) = 11 /\ \A j \in 1..11 : IsNumber(rows[i][j])) \o
        If(\A i \in 1..Len(rows) : Len(rows[i]) = 11, LET want == TLCEval([i \in 1..Len(ks) |-> row(i)]) ok(js) == \A i \in 1..Len(rows) : \A j \in js : RClose(rows[i][j], want[i][j], tol[j]) IN
           C("BinEdges", ok({1})) \o C("BinCounts", ok({2, 11})) \o C("BinDensities", ok({3, 4})) \o C("BinCumulative", ok({5, 6, 7})) \o C("BinDifferential", ok({8, 9, 10}))) \o
        If(Len(rows) > 1, C("BinnedReadsBack", Has(s.back, "n") /\ RSeqClose(s.back.n, [i \in 1..Len(rows) |-> RNum(rows[i][2])], "1e-12", "0") /\ RSeqClose(s.back.d_min, [i \in 1..Len(rows) |-> RNum(rows[i][1])], "1e-12", "0")
                             /\ RClose(s.back.area, area, "1.1e-3"))))
\* ---------------------------------------------------------------- text from a shapefile
Texted(s, f) ==
  LET es == TLCEval(Parsed(s.text)) c == TLCEval(Scc(es)) sp == TLCEval(Spatial(es)) A == TLCEval(Area0(s, f)) R == s.before[f].R
      cr == s.before[f].craters i == [craters |-> [k \in 1..Len(cr) |-> [ring |-> cr[k].ring, regular |-> FALSE]]] rd == s.before[f].read IN
  C("TextReadable", c.ok /\ sp.ok) \o
  If(c.ok /\ sp.ok, LET B == TLCEval(Boundary(es)) IN
     C("TextArea", RClose(c.area, RMul(Sq(R), AreaOf(A)), "2e-5")) \o C("TextPerimeter", RClose(c.perimeter, RMul(R, PerimeterOf(A)), "2e-5")) \o
     C("TextRadius", RClose(Leading(ScalarOf(es, "a_axis_radius")), R, "6e-6")) \o C("TextBoundary", SameRings(A, B, "1e-8")) \o C("TextBoundaryArea", RClose(AreaOf(B), AreaOf(A), "1e-6")) \o
     CratersWithin(A, R, i, sp, "2e-5", "0.0014") \o
     C("TextFractions", Len(sp.frac) = Len(rd.frac) /\ Paired(TLCEval(Pairs(sp.diam, sp.frac)), TLCEval(Pairs(rd.diam, rd.frac)), "6e-7", "5.1e-3")) \o
     C("TextReadsBack", Has(s.back, "area") /\ RClose(s.back.area, RMul(Sq(R), AreaOf(A)), "2e-5") /\ RClose(s.back.perimeter, RMul(R, PerimeterOf(A)), "2e-5") /\ RClose(s.back.radius, R, "6e-6")))
\* ---------------------------------------------------------------- shapefile from a text
OneExterior(A) == ~A[1].hole /\ \A k \in 2..Len(A) : A[k].hole /\ Inside(<<A[1]>>, A[k].pts[1])
Shaped(s, f) ==
  LET es == TLCEval(Parsed(s.before[f].text)) sp == TLCEval(Spatial(es)) A == TLCEval(Boundary(es)) R == Leading(ScalarOf(es, "a_axis_radius")) o == s.shape
      shapes == TLCEval([k \in 1..Len(o.area) |-> FileRings(<<o.area[k]>>)])
      q == TLCEval([k \in 1..Len(o.craters) |-> Ring(o.craters[k].ring)])
      r == TLCEval([k \in 1..Len(sp.diam) |-> RDiv(sp.diam[k], RMul("2", R))])
      v == TLCEval([k \in 1..Len(sp.diam) |-> VOf(sp.lon[k], sp.lat[k])])
      named(k) == {m \in 1..Len(q) : RNear(o.craters[m].diam, sp.diam[k], "5.1e-7") /\ RNear(o.craters[m].x, sp.lon[k], "1e-12") /\ RNear(o.craters[m].y, sp.lat[k], "1e-12")}
      nm == TLCEval([k \in 1..Len(sp.diam) |-> named(k)])
      p == TLCEval([k \in 1..Len(sp.diam) |-> IF nm[k] = {} THEN <<>> ELSE q[CHOOSE m \in nm[k] : TRUE]])
      hit(k) == Cardinality({m \in 1..Len(s.back.diam) : RLe(VAngle(VOf(s.back.lon[m], s.back.lat[m]), v[k]), RMul("0.02", r[k])) /\ Ratio(s.back.diam[m], sp.diam[k], "0.999", "1.001")})
  IN C("ShapeBoundary", SameRings(A, FlattenSeq(shapes), "1e-8")) \o C("ShapeParts", \A k \in 1..Len(shapes) : shapes[k] # <<>> /\ OneExterior(shapes[k])) \o
     C("ShapeRadius", RClose(o.R, R, "1e-6")) \o C("ShapeNumber", Len(o.craters) = Len(sp.diam)) \o
     C("ShapeAttributes", \A k \in 1..Len(sp.diam) : Cardinality(nm[k]) = 1) \o
     C("ShapeClockwise", \A k \in 1..Len(q) : RLt(Signed(q[k]), "0")) \o
     If(\A k \in 1..Len(sp.diam) : nm[k] # {},
        C("ShapeDiameter", \A k \in 1..Len(p) : Ratio(RMul(RMul("2", R), CapRadius(RingArea(p[k]))), sp.diam[k], "0.9992", RAdd("1.0002", Sq(r[k])))) \o
        C("ShapeCentre", \A k \in 1..Len(p) : RLe(VAngle(Centre(p[k]), v[k]), RMul("0.02", r[k]))) \o
        C("ShapeRound", \A k \in 1..Len(p) : \A j \in 1..Len(p[k]) : Ratio(VAngle(p[k][j], v[k]), r[k], "0.98", "1.02"))) \o
     C("ShapeReadsBack", Has(s.back, "area") /\ RClose(s.back.area, RMul(Sq(R), AreaOf(A)), "1e-6") /\ RClose(s.back.perimeter, RMul(R, PerimeterOf(A)), "1e-6") /\ RClose(s.back.radius, R, "1e-6")) \o
     If(Has(s.back, "area"), C("ShapeCratersBack", \A k \in 1..Len(v) : LET near == BoundaryDist(A, v[k]) IN RLt(RMul("1.05", r[k]), near) /\ Inside(A, v[k]) => hit(k) = 1))
\* ---------------------------------------------------------------- one command
Elements(q) == {q[k] : k \in 1..Len(q)}
Command(s) ==
  LET cmd == s.cmd there == Elements(s.there) made == TLCEval(Written(cmd)) IN
  IF ~Accepted(cmd, there) THEN C("NothingWritten", s.created = <<>> /\ s.changed = <<>> /\ s.removed = <<>>)
  ELSE C("Done", s.exit = "") \o
       If(s.exit = "", C("Names", Elements(s.created) = made \ there /\ Elements(s.changed) \subseteq made /\ s.removed = <<>>) \o
         (IF cmd.op = "merge" THEN If(s.text # "", Merged(s, TLCEval([k \in 1..Len(cmd.fs) |-> Count(s, cmd.fs[k])])))
          ELSE CASE cmd.fmt = "stat" -> If(s.text # "", Binned(s, TLCEval(Count(s, cmd.fs[1]))))
                 [] cmd.fmt = "scc" -> If(s.text # "", Texted(s, cmd.fs[1]))
                 [] cmd.fmt = "shp" -> If(IsRec(s.shape), Shaped(s, cmd.fs[1]))
                 [] OTHER -> <<>>))
J(st_, e) == C("Ran", e.exc = "") \o If(e.exc = "", Flat([k \in 1..Len(e.out.steps) |-> TLCEval(Command(e.out.steps[k]))]))
=============================================================================
