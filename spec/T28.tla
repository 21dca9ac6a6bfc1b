-------------------------------- MODULE T28 --------------------------------
(* C28: maps, randomness charts and score panels of the real code against RaFigure *)
EXTENDS Verdict, RaFigure, Format
Num(s) == RNum(s)
Area(parts) == FlattenSeq([k \in 1..Len(parts) |-> <<[pts |-> Ring(parts[k].shell), hole |-> FALSE]>> \o
                   [j \in 1..Len(parts[k].holes) |-> [pts |-> Ring(parts[k].holes[j]), hole |-> TRUE]]])
DataX(a, x) == RAdd(a.xlim[1], RMul(RDiv(RSub(x, a.rect[1]), RSub(a.rect[3], a.rect[1])), RSub(a.xlim[2], a.xlim[1])))
DataY(a, y) == RAdd(a.ylim[1], RMul(RDiv(RSub(y, a.rect[2]), RSub(a.rect[4], a.rect[2])), RSub(a.ylim[2], a.ylim[1])))
FigY(a, y) == RAdd(a.rect[2], RMul(RDiv(RSub(y, a.ylim[1]), RSub(a.ylim[2], a.ylim[1])), RSub(a.rect[4], a.rect[2])))
FigX(a, x) == RAdd(a.rect[1], RMul(RDiv(RSub(x, a.xlim[1]), RSub(a.xlim[2], a.xlim[1])), RSub(a.rect[3], a.rect[1])))
Sel(q, P(_)) == SelectSeq(q, P)
Items(f, k, P(_)) == SelectSeq(f.items, LAMBDA x : x.ax = k /\ P(x))
-----------------------------------------------------------------------------
(* one map: axes k of figure f; area A, body radius R (km), craters m (indices into i.diam) *)
MapOk(i, A, c, f, k, m, measure) ==
  LET ax == f.axes[k] R == i.R
      un(v) == Unview(c, <<RDiv(DataX(ax, v[1]), R), RDiv(DataY(ax, v[2]), R)>>)
      face == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face # "")
      rims == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face = "" /\ x.rgb = i.ink /\ x.n > 8)
      lines == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face = "" /\ x.n = 2)
      cells == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face = "" /\ x.loop /\ x.rgb # i.ink)
      p == TLCEval([j \in 1..Len(m) |-> VOf(i.lon[m[j]], i.lat[m[j]])])
      corner == TLCEval(FlattenSeq([j \in 1..Len(A) |-> A[j].pts]))
      drawn == TLCEval(FlattenSeq([j \in 1..Len(face) |-> [q \in 1..Len(face[j].v) |-> un(face[j].v[q])]]))
      size == TLCEval(RMaxSeq([j \in 1..Len(corner) |-> VAngle(c, corner[j])]))
      eps == RMul("1e-5", size)
      rim == TLCEval([j \in 1..Len(rims) |-> [q \in 1..Len(rims[j].v) |-> un(rims[j].v[q])]])
      IsRim(j, n) == LET a == RDiv(i.diam[m[n]], RMul(2, R)) IN \A q \in 1..Len(rim[j]) : RNear(VAngle(rim[j][q], p[n]), a, RAdd(eps, RMul("0.02", a)))
      rimOf == TLCEval([j \in 1..Len(rims) |-> {n \in 1..Len(m) : IsRim(j, n)}])
      ends == TLCEval([j \in 1..Len(lines) |-> <<un(lines[j].v[1]), un(lines[j].v[2])>>])
      at(v) == {n \in 1..Len(p) : RLt(VAngle(v, p[n]), RMul(10, eps))}
      link(j) == UNION {{<<a, b>> : b \in at(ends[j][2])} \cup {<<b, a>> : b \in at(ends[j][2])} : a \in at(ends[j][1])}
      links == TLCEval(UNION {link(j) : j \in 1..Len(lines)})
      cell == TLCEval([j \in 1..Len(cells) |-> [q \in 1..Len(cells[j].v) |-> un(cells[j].v[q])]])
      tol == RMul("2e-4", size)
      IsCell(j, n) == \A q \in 1..Len(cell[j]) : LET v == cell[j][q] d == VAngle(v, p[n]) o == {VAngle(v, p[b]) : b \in (1..Len(p)) \ {n}} IN
                        /\ \A x \in o : RLe(d, RAdd(x, tol))
                        /\ (\E x \in o : RNear(x, d, tol)) \/ RLe(ToBoundary(A, v), tol)
      cellOf == TLCEval([j \in 1..Len(cells) |-> {n \in 1..Len(p) : IsCell(j, n)}])
  IN C("AreaOutline", /\ Len(face) > 0
                      /\ \A q \in 1..Len(drawn) : \E j \in 1..Len(corner) : RLt(VAngle(drawn[q], corner[j]), eps)
                      /\ \A j \in 1..Len(corner) : \E q \in 1..Len(drawn) : RLt(VAngle(drawn[q], corner[j]), eps)) \o
     C("HolesOpen", \A j \in 1..Len(face) : \A n \in 2..Len(face[j].turn) : face[j].turn[n] # face[j].turn[1]) \o
     C("PartsDrawn", REq(RSum([j \in 1..Len(face) |-> Len(face[j].turn)]), Len(A)) /\ Len(face) = Cardinality({j \in 1..Len(A) : ~A[j].hole})) \o
     C("AllInView", \A q \in 1..Len(face) : \A n \in 1..Len(face[q].v) : Within(face[q].v[n], ax.rect, "1e-6")) \o
     C("CraterOutlines", Len(rims) = Len(m) /\ (\A j \in 1..Len(rims) : rimOf[j] # {}) /\ \A n \in 1..Len(m) : \E j \in 1..Len(rims) : n \in rimOf[j]) \o
     C("CratersInView", \A j \in 1..Len(rims) : \A q \in 1..Len(rims[j].v) : Within(rims[j].v[q], ax.rect, "1e-6")) \o
     If(measure = "m2cnd", C("Neighbours", Len(lines) = Len(m) /\ (\A j \in 1..Len(lines) : \E x \in link(j) : IsSecond(p, x[1], x[2])) /\
                             \A a \in 1..Len(p) : \E x \in links : x[1] = a /\ IsSecond(p, a, x[2]))) \o
     If(measure = "sdaa", C("Cells", (\A j \in 1..Len(cells) : cellOf[j] # {}) /\ \A n \in 1..Len(p) : \E j \in 1..Len(cells) : n \in cellOf[j]) \o
                        C("CellsFillArea", LET part(x) == RSum([n \in 1..Len(x.enclosed) |-> RAbs(x.enclosed[n])])
                                               shells == RSum([j \in 1..Len(face) |-> RMaxSeq([n \in 1..Len(face[j].enclosed) |-> RAbs(face[j].enclosed[n])])])
                                               all == RSum([j \in 1..Len(face) |-> part(face[j])])
                                               got == RSum([j \in 1..Len(cells) |-> part(cells[j])])
                                           IN RLe(RMul("0.97", RSub(RMul(2, shells), all)), got) /\ RLe(got, RMul("1.03", shells)))) \o
     If(measure # "m2cnd" /\ measure # "map", C("NoNeighbours", lines = <<>>)) \o If(measure # "sdaa", C("NoCells", cells = <<>>))
-----------------------------------------------------------------------------
(* one histogram: axes k of figure f; trials t, value m0 *)
HistOk(i, f, k, t, m0, measure) ==
  LET ax == f.axes[k]
      bars == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face # "" /\ x.n = 5)
      lo(b) == RMinSeq([q \in 1..Len(b.v) |-> b.v[q][1]]) hi(b) == RMaxSeq([q \in 1..Len(b.v) |-> b.v[q][1]])
      top(b) == RMaxSeq([q \in 1..Len(b.v) |-> b.v[q][2]]) foot(b) == RMinSeq([q \in 1..Len(b.v) |-> b.v[q][2]])
      wd == RSub(ax.xlim[2], ax.xlim[1])
      B == TLCEval(SortSeq([j \in 1..Len(bars) |-> [x0 |-> DataX(ax, lo(bars[j])), x1 |-> DataX(ax, hi(bars[j])), h |-> DataY(ax, top(bars[j])), z |-> DataY(ax, foot(bars[j]))]], LAMBDA a, b : RLt(a.x0, b.x0)))
      e == RMul("1e-7", wd)
      n == Len(B)
      Holds(j) == LET a == IF j = 1 THEN RSub(B[j].x0, RMul(3, e)) ELSE B[j].x0 b == IF j = n THEN RAdd(B[j].x1, RMul(3, e)) ELSE B[j].x1 IN
                  RLe(RSub(RCountIn(t, RAdd(a, e), RSub(b, e)), "1e-4"), B[j].h) /\ RLe(B[j].h, RAdd(RCountIn(t, RSub(a, e), RAdd(b, e)), "1e-4")) /\ RNear(B[j].z, 0, "1e-4")
      upright == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face = "" /\ x.n = 2 /\ RNear(x.v[1][1], x.v[2][1], "1e-6"))
      at(j) == DataX(ax, upright[j].v[1][1])
      xtol == RMul("1e-4", wd)
      shade == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face # "" /\ x.n > 5)
      text == Sel(f.texts, LAMBDA x : x.ax = k /\ StrHas(x.s, "|"))
      q == StrSplit(text[1].s, "|") pc == Percentile(m0, t)
      unit == IF measure = "m2cnd" THEN "km" ELSE "km2"
  IN C("Bars", /\ n > 1 /\ (\A j \in 1..(n-1) : RNear(B[j].x1, B[j+1].x0, e)) /\ RNear(RSum([j \in 1..n |-> B[j].h]), Len(t), "1e-3") /\ \A j \in 1..n : Holds(j)) \o
     C("BarsSpanTrials", RNear(B[1].x0, RMinSeq(t), RMul(3, e)) /\ RNear(B[n].x1, RMaxSeq(t), RMul(3, e))) \o
     C("MeasuredLine", Len(upright) = 2 /\ \E j \in 1..2 : RNear(at(j), m0, xtol) /\ RNear(at(3-j), Mean(t), xtol)) \o
     C("DeviationShaded", Len(shade) = 1 /\ RNear(DataX(ax, lo(shade[1])), RSub(Mean(t), Sd(t)), RMul(10, xtol)) /\ RNear(DataX(ax, hi(shade[1])), RAdd(Mean(t), Sd(t)), RMul(10, xtol))) \o
     C("ValueText", Len(text) = 1 /\ Len(q) = 2 /\ DRounded(q[1], m0, 3) /\ StrEnds(q[2], "%") /\ RNear(DataX(ax, text[1].at[1]), m0, xtol) /\
          LET s == StrReplace(q[2], "%", "") IN IF RLt(pc, 50) THEN DRounded(s, pc, 2) ELSE RNear(s, pc, RMul("0.051", RAdd(RSub(100, pc), "1e-12"))) \/ DRounded(s, pc, 2)) \o
     C("HistogramScale", Len(ax.ticks) > 0 => (\E j \in DOMAIN ax.ticks : ax.ticks[j].unit = unit) /\ \A j \in DOMAIN ax.ticks : ax.ticks[j].num # "nan" /\ RClose(ax.ticks[j].num, ax.ticks[j].at, "1e-5") /\ ax.ticks[j].unit \in {"", unit})
-----------------------------------------------------------------------------
(* bands of scores: sequence of <<centre, half height>> pairs found in axes k, smallest first *)
Bands(f, k) ==
  LET q == Items(f, k, LAMBDA x : x.kind = "path" /\ x.face # "" /\ x.n > 5)
      y0(x) == RMinSeq([j \in 1..Len(x.v) |-> x.v[j][2]]) y1(x) == RMaxSeq([j \in 1..Len(x.v) |-> x.v[j][2]])
      b == [j \in 1..Len(q) |-> [c |-> RDiv(RAdd(y0(q[j]), y1(q[j])), 2), h |-> RDiv(RSub(y1(q[j]), y0(q[j])), 2), face |-> q[j].face]]
  IN SortSeq(b, LAMBDA a, c : RLt(a.h, c.h))
Three(b) == Len(b) > 0 /\ Len(b) % 3 = 0 /\ LET n == Len(b) \div 3 IN
  \A s \in 1..3 : \A j \in 1..n : LET x == b[(s-1)*n + j] IN RNear(RDiv(x.h, b[1].h), Scaled(s), "0.003") /\ RNear(x.c, b[1].c, RMul("0.003", b[1].h)) /\ x.face = b[(s-1)*n + 1].face
SigmaLabels(f, cy, u) ==
  LET z == Sel(f.texts, LAMBDA x : x.ax = 0 /\ StrTrim(x.s) = "0" /\ RNear(x.at[2], cy, RMul("0.6", u)))
  IN \E q \in DOMAIN z : \A s \in {1, 3} : \A g \in {"1", "-1"} :
       \E j \in DOMAIN f.texts : f.texts[j].ax = 0 /\ StrTrim(f.texts[j].s) = StrOfInt(s) /\ RNear(f.texts[j].at[1], z[q].at[1], "0.02") /\ RNear(RDiv(RSub(f.texts[j].at[2], z[q].at[2]), u), RMul(g, Scaled(s)), "0.1")
TextAt(f, s) == Sel(f.texts, LAMBDA x : StrTrim(x.s) = s)
UpDown(f, cy) == LET a == TextAt(f, "clustered") b == TextAt(f, "separated") IN Len(a) = 1 /\ Len(b) = 1 /\ RLt(a[1].at[2], cy) /\ RLt(cy, b[1].at[2])
SameMarks(marks, want, xt, yt) == Len(marks) = Len(want) /\ (\A j \in DOMAIN want : \E n \in DOMAIN marks : RNear(marks[n][1], want[j][1], xt) /\ RNear(marks[n][2], want[j][2], yt))
AllMarks(f, P(_)) == FlattenSeq([j \in 1..Len(f.items) |-> IF f.items[j].kind = "marks" /\ P(f.items[j]) THEN f.items[j].v ELSE <<>>])
\* stored scores chart of one measure
ScoresOk(i, o, f, s, cell) ==
  LET ks == {k \in DOMAIN f.axes : f.axes[k].visible /\ ~f.axes[k].equal /\ \E x \in DOMAIN f.items : f.items[x].ax = k /\ f.items[x].face # "" /\ f.items[x].n > 5
                                    /\ f.items[x].v[1] # <<>> /\ Within(Centre(f.axes[k].rect), cell, "0.001") /\ Three(TLCEval(Bands(f, k)))}
  IN C("ScoreChart", Cardinality(ks) = 1) \o
     If(Cardinality(ks) = 1,
        LET k == CHOOSE x \in ks : TRUE ax == f.axes[k] b == Bands(f, k) cy == b[1].c u == b[1].h
            m0(key) == (CHOOSE x \in {o.m0[j] : j \in DOMAIN o.m0} : x.measure = s.measure /\ REq(x.key, key)).m0
            want == [j \in 1..Len(s.bins) |-> <<FigX(ax, BinX(s.bins[j].k)), RAdd(cy, RMul(u, ScoreY(s.measure, Score(m0(s.bins[j].key), s.bins[j].trials))))>>]
            y(j) == RSub(want[j][2], cy)
            marks == AllMarks(f, LAMBDA x : TRUE)
            name == Sel(f.texts, LAMBDA x : StrHas(x.s, "trials"))
        IN C("ScoreMarks", Len(marks) = Len(want) /\ \A j \in DOMAIN want : \E n \in DOMAIN marks : RNear(marks[n][1], want[j][1], "1e-4") /\ RNear(marks[n][2], want[j][2], RAdd(RMul("0.003", u), RMul("0.002", RAbs(y(j)))))) \o
           C("SigmaLabels", SigmaLabels(f, cy, u)) \o C("ClusteredBelow", UpDown(f, cy)) \o
           C("ScoreTitle", \E j \in DOMAIN name : StrSplit(name[j].s, "|") = <<s.measure, StrOfInt(s.T) \o " trials">>) \o
           C("ScoreScale", (Len(ax.ticks) > 0 /\ RLt(ax.ticks[1].at, "-0.01") => ax.ticks[1].unit = "m") /\ \A j \in DOMAIN ax.ticks : LET t == ax.ticks[j] IN (RLe(ax.xlim[1], t.at) /\ RLe(t.at, ax.xlim[2])) => t.num # "nan" /\ RNear(RLog10(RMul(t.num, IF RLt(t.at, "-0.01") THEN "0.001" ELSE 1)), t.at, "0.06") /\ (t.unit = "km" <=> RNear(t.at, 0, "0.01")) /\ (t.unit = "m" => RLt(t.at, 0))))
ChartOk(i, o, A, c, s) ==
  LET n == Len(s.bins) sel == {i.select[j] : j \in DOMAIN i.select}
      only == sel = {0}
      name == i.out \o "_ra-" \o s.measure \o (IF only THEN "-n_sigma" ELSE "") \o ".png"
      fs == {j \in DOMAIN o.figs : o.figs[j].file = name}
  IN C("ChartFiles", Cardinality(fs) = 1) \o
     If(Cardinality(fs) = 1,
        LET f == o.figs[CHOOSE j \in fs : TRUE]
            q == Ascending(Chosen(n, sel)) d == Dim(CellCount(n, sel))
            cell(j) == CellRect(f.frame, d, j - 1)
            maps(r) == {k \in DOMAIN f.axes : f.axes[k].equal /\ f.axes[k].visible /\ Contained(f.axes[k].rect, r, "0.002")}
            hist(r) == {k \in DOMAIN f.axes : ~f.axes[k].equal /\ f.axes[k].visible /\ Contained(f.axes[k].rect, r, "0.002") /\
                          RLt(RMul(RSub(f.axes[k].rect[3], f.axes[k].rect[1]), RSub(f.axes[k].rect[4], f.axes[k].rect[2])), RMul("0.15", RMul(RSub(r[3], r[1]), RSub(r[4], r[2]))))
                          /\ \E x \in DOMAIN f.items : f.items[x].ax = k}
            m0(key) == (CHOOSE x \in {o.m0[j] : j \in DOMAIN o.m0} : x.measure = s.measure /\ REq(x.key, key)).m0
            said(r) == Sel(f.texts, LAMBDA x : StrHas(x.s, "|n = ") /\ Within(<<RSub(x.at[1], "0.01"), x.at[2]>>, r, "0.002"))
            one(j) == LET b == s.bins[q[j]] r == cell(j) mp == maps(r) hs == hist(r) t == said(r) z == StrSplit(t[1].s, "|n = ") lo == RPow(2, RDiv(b.k, 2)) IN
              C("BinCell", Cardinality(mp) = 1 /\ Cardinality(hs) = 1) \o
              C("BinTitle", Len(t) = 1 /\ Len(z) = 2 /\ z[2] = StrOfInt(b.n) /\ (RangeShown(z[1], lo, RMul(lo, RPow(2, "0.499")), 2) \/ RangeShown(z[1], lo, RMul(lo, RPow(2, "0.5")), 2))) \o
              If(Cardinality(mp) = 1, MapOk(i, A, c, f, CHOOSE k \in mp : TRUE, Members(i.diam, b.k), s.measure)) \o
              If(Cardinality(hs) = 1, HistOk(i, f, CHOOSE k \in hs : TRUE, b.trials, m0(b.key), s.measure))
        IN If(~only,
              C("CellsFilled", Cardinality({k \in DOMAIN f.axes : f.axes[k].equal}) = Len(q)) \o
              Flat([j \in 1..Len(q) |-> one(j)]) \o
              If(WithScores(sel), ScoresOk(i, o, f, s, cell(d * d))) \o
              If(~WithScores(sel), C("NoScores", AllMarks(f, LAMBDA x : TRUE) = <<>> /\ TextAt(f, "clustered") = <<>>))) \o
           If(only, ScoresOk(i, o, f, s, f.frame)))
Chart(i, o) ==
  LET A == TLCEval(Area(i.area)) c == TLCEval(Centroid(A)) IN
  Flat([j \in 1..Len(i.stored) |-> IF i.stored[j].bins # <<>> THEN ChartOk(i, o, A, c, i.stored[j]) ELSE <<>>]) \o
  C("M2cndOfMap", \A j \in DOMAIN o.m0 : o.m0[j].measure = "m2cnd" => LET m == Members(i.diam, RRound(RMul(2, o.m0[j].key))) IN
       RClose(o.m0[j].m0, RMul(i.R, M2cnd([x \in 1..Len(m) |-> VOf(i.lon[m[x]], i.lat[m[x]])])), "1e-6"))
-----------------------------------------------------------------------------
LonDiff(a, b) == LET x == RSub(a, b) IN RAbs(RSub(x, RMul(360, RRound(RDiv(x, 360)))))
Deg(x) == RMul(x, RDiv(180, Pi))
Lat(v) == Deg(RAsin(v[3]))
Lon(v) == Deg(RAtan2(v[2], v[1]))
GridOk(i, A, c, f) ==
  LET ax == f.axes[1] un(v) == Unview(c, <<RDiv(DataX(ax, v[1]), i.R), RDiv(DataY(ax, v[2]), i.R)>>)
      lines == Items(f, 1, LAMBDA x : x.kind = "path" /\ x.face = "" /\ x.rgb # i.ink /\ x.n > 2)
      L == TLCEval([j \in 1..Len(lines) |-> TLCEval([q \in 1..Len(lines[j].v) |-> un(lines[j].v[q])])])
      labels == Sel(f.texts, LAMBDA x : StrEnds(x.s, "{deg}"))
      val(t) == StrReplace(StrTrim(t.s), "{deg}", "")
      isLat(j, d) == \A q \in 1..Len(L[j]) : RNear(Lat(L[j][q]), d, "1e-3")
      isLon(j, d) == \A q \in 1..Len(L[j]) : RLt("89.9", RAbs(Lat(L[j][q]))) \/ RLt(LonDiff(Lon(L[j][q]), d), "1e-3")
      along(j) == \E t \in DOMAIN labels : isLat(j, val(labels[t])) \/ isLon(j, val(labels[t]))
      at(t, j) == \E q \in 1..(Len(L[j])) : Within(lines[j].v[q], <<RSub(labels[t].at[1], "0.06"), RSub(labels[t].at[2], "0.06"), RAdd(labels[t].at[1], "0.06"), RAdd(labels[t].at[2], "0.06")>>, 0)
      beyond(j) == \E q \in {1, Len(L[j])} : ~Within(lines[j].v[q], ax.rect, "0.001")
      through(j) == \E q \in 1..Len(L[j]) : Within(lines[j].v[q], ax.rect, "0.001")
  IN C("GridLines", Len(lines) = Len(labels) /\ Len(lines) > 1 /\ (\A j \in 1..Len(lines) : along(j))) \o
     C("GridLabels", \A t \in DOMAIN labels : \E j \in 1..Len(lines) : (isLat(j, val(labels[t])) \/ isLon(j, val(labels[t]))) /\ (at(t, j) \/ beyond(j))) \o
     C("GridCrossesMap", Cardinality({j \in 1..Len(lines) : through(j) /\ \E t \in DOMAIN labels : isLat(j, val(labels[t]))}) > 0 /\ Cardinality({j \in 1..Len(lines) : through(j) /\ \E t \in DOMAIN labels : isLon(j, val(labels[t]))}) > 0)
Map(i, o) ==
  LET A == TLCEval(Area(i.area)) c == TLCEval(Centroid(A)) IN
  C("MapFile", Len(o.figs) = 1 /\ o.figs[1].file = i.file) \o
  If(Len(o.figs) = 1,
     LET f == o.figs[1] v == {k \in DOMAIN f.axes : f.axes[k].visible} IN
     C("OneMap", v = {1} /\ f.axes[1].equal) \o
     If(v = {1}, MapOk(i, A, c, [f EXCEPT !.items = SelectSeq(@, LAMBDA x : x.face # "" \/ x.rgb = i.ink)], 1, [j \in 1..Len(i.diam) |-> j], "map") \o GridOk(i, A, c, f)))
-----------------------------------------------------------------------------
Panel(i, o) ==
  LET f == o.figs[1] ax == f.axes[1]
      drawn(p) == p.hide = 0 /\ (p.binning # "none" \/ i.pres = "cumulative" \/ p.type # "data")
      scored(p) == drawn(p) /\ p.type = "data" /\ i.counts[p.count].scores # <<>>
      S == {n \in DOMAIN i.plots : scored(i.plots[n])}
      shown == i.show = 1 /\ S # {}
      loose(n) == AllMarks(f, LAMBDA x : x.ax = 0 /\ x.rgb = i.plots[n].colour)
      ks == {k \in DOMAIN f.axes : k > 1 /\ Three(TLCEval(Bands(f, k)))}
  IN C("OneFigure", Len(o.figs) = 1) \o
     If(Len(o.figs) = 1 /\ ~shown, C("NoPanel", (\A n \in DOMAIN i.plots : loose(n) = <<>>) /\ TextAt(f, "clustered") = <<>> /\ ks = {})) \o
     If(Len(o.figs) = 1 /\ shown,
        C("OnePanel", Cardinality(ks) = 1) \o
        If(Cardinality(ks) = 1,
           LET k == CHOOSE x \in ks : TRUE b == TLCEval(Bands(f, k)) cy == b[1].c u == b[1].h
               scores(n) == i.counts[i.plots[n].count].scores
               rows(n, q) == SelectSeq(scores(n)[q].bins, LAMBDA r : r.s # "-")
               want(n) == FlattenSeq([q \in 1..Len(scores(n)) |-> [r \in 1..Len(rows(n, q)) |-> <<FigX(ax, BinX(rows(n, q)[r].k)), RAdd(cy, RMul(u, ScoreY(scores(n)[q].measure, rows(n, q)[r].s)))>>]])
               measures == UNION {{scores(n)[q].measure : q \in DOMAIN scores(n)} : n \in S}
               others == UNION {{scores(n)[q].measure : q \in DOMAIN scores(n)} : n \in DOMAIN i.plots}      \* hidden plots may be named
               ts == UNION {{scores(n)[q].T : q \in DOMAIN scores(n)} : n \in S}
               pts == FlattenSeq([n \in DOMAIN i.plots |-> IF drawn(i.plots[n]) /\ i.plots[n].type = "data" THEN o.points[n] ELSE <<>>])
               tr == Sel(f.texts, LAMBDA x : StrEnds(x.s, " trials"))
           IN C("PanelMarks", \A n \in DOMAIN i.plots : IF n \in S THEN SameMarks(loose(n), want(n), "1e-4", RMul("0.02", u)) ELSE loose(n) = <<>>) \o
              C("PanelLabels", SigmaLabels(f, cy, u) /\ UpDown(f, cy)) \o
              C("PanelMeasures", \A m \in {"m2cnd", "sdaa"} : Len(TextAt(f, m)) \in (IF m \in measures THEN {1} ELSE IF m \in others THEN {0, 1} ELSE {0})) \o
              C("PanelTrials", Len(tr) = 1 /\ \E t \in ts : StrHas(tr[1].s, StrOfInt(t))) \o
              If(~(i.offset < 0), C("PanelAboveData", \A j \in DOMAIN pts : RLt(pts[j][2], RPow10(LET g == RSub(cy, u) h == RDiv(RSub(g, ax.rect[2]), RSub(ax.rect[4], ax.rect[2])) IN
                   RAdd(RLog10(ax.ylim[1]), RMul(h, RSub(RLog10(ax.ylim[2]), RLog10(ax.ylim[1])))))))) \o
              If(i.offset = 0, C("PanelInFrame", RLt(RAdd(cy, RMul(u, Scaled(3))), RAdd(f.frame[4], "0.001"))))))
-----------------------------------------------------------------------------
J(s_, e) ==
  LET i == e.in o == e.out IN
  C("Runs", o.exit = i.exit) \o
  If(o.exit = "" /\ i.exit = "", CASE e.ev = "chart" -> Chart(i, o) [] e.ev = "map" -> Map(i, o) [] e.ev = "panel" -> Panel(i, o))
=============================================================================
