-------------------------------- MODULE T27 --------------------------------
(* C27: uncertainty maps of the real code against Uncertainty *)
EXTENDS Verdict, Uncertainty, Published, FiniteSets
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
GaPer(u) == CASE u \in {"", "Ga"} -> "1" [] u = "Ma" -> "1e-3" [] u = "ka" -> "1e-6" [] u = "a" -> "1e-9" [] OTHER -> "nan"
TickOk(t) == RClose(RMul(t.num, GaPer(t.unit)), t.at, "1e-5")
Map(i, o) ==
  LET M == o.maps ny == o.shapes[1][1] nx == o.shapes[1][2]
      A == M.k.axes xr == IF i.xr = <<>> THEN <<"4.2", "1e-5">> ELSE i.xr yr == IF i.yr = <<>> THEN <<"-2", "8">> ELSE i.yr
      tmax == A[1].t0 tmin == A[Len(A)].t1 split == Len(A) = 2
      w == IF split THEN RDiv(RSub(A[1].x1, A[1].x0), RSub(A[2].x1, A[1].x0)) ELSE IF A[1].log THEN "0" ELSE "1"
      tc == IF split THEN A[2].t0 ELSE IF A[1].log THEN A[1].t0 ELSE A[1].t1
      p == Pub(ChronFns, i.cf).p f == Pub(ProdFns, i.pf)
      unit == RPow10(RSub(RLog10(FnForm(f, "cumulative", 0, i.d)), RLog10(FnForm(f, "cumulative", 0, 1))))    \* N(d) per unit N(1)
      age == TLCEval([c \in 1..nx |-> GridAge(nx, w, tmin, tc, tmax, nx + 1 - c)])
      area == TLCEval([r \in 1..ny |-> GridArea(ny, yr, r)])
      dens == TLCEval([c \in 1..nx |-> RMul(unit, N1(p, age[c]))])
      lam(r, c) == RMul(dens[c], area[r])
      T == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> LET t == Tail8(lam(r, c)) IN [e |-> E8(t), v |-> V8(t), z |-> RSub(1, t[0])]])])
      dev == TLCEval([r \in 1..ny |-> TLCEval([c \in 1..nx |-> RSub(o.k[r][c], T[r][c].e)])])
      Sum(F(_, _)) == RSum([r \in 1..ny |-> RSum([c \in 1..nx |-> F(r, c)])])
      sqrt6(v) == RAdd(RMul(6, RSqrt(v)), 3)
      q(cell, s) == MeasuredAge(p, RMul(unit, area[cell.r]), cell.k, s)
      usable(cell) == RLt("1e-9", CumK(cell.k, RMul(RMul(unit, area[cell.r]), N1(p, Last))))
      tol == "0.03"
      all == {M.k, M.err, M.age}
      globe == Globe(i.body)
      ratio == unit ef == IF i.ef = "" THEN "1e300" ELSE LET e == Pub(EquilFns, i.ef) IN FnForm(e, "cumulative", OwnA0(e), i.d)
      sat(t) == Saturated(p, ratio, ef, t)
      full == sat(tmin) \/ RLe(RLog10(globe), RAdd(yr[1], "1e-6"))       \* limits below the whole map: nothing is said
      fx(x) == RDiv(RSub(x, A[1].x0), RSub(A[Len(A)].x1, A[1].x0))
      B == [a \in DOMAIN A |-> [A[a] EXCEPT !.x0 = fx(A[a].x0), !.x1 = fx(A[a].x1)]]
      shade(x, y) == sat(AgeAt(B, x)) \/ RLt(globe, RPow10(RAdd(yr[1], RMul(RSub(yr[2], yr[1]), y))))
      inmap(m, x, y) == \E k \in DOMAIN m.polys : Inside(m.polys[k], x, y)
      pts == {<<RDiv(10 * a + 4, 70), RDiv(10 * b + 3, 70)>> : a \in 0..6, b \in 0..6}
      near(x, y) == {shade(RAdd(x, u), RAdd(y, v)) : u \in {"-0.01", "0.01"}, v \in {"-0.01", "0.01"}}
      text(m, s) == SelectSeq(m.texts, LAMBDA t : t.s = s)
      ygl == RDiv(RSub(RLog10(globe), yr[1]), RSub(yr[2], yr[1]))
      show == IF RLt(i.d, 1) THEN RMul(i.d, 1000) ELSE i.d
  IN C("MapFiles", \A e \in DOMAIN i.fmt : \A t \in {"_k", "_err", "_age"} : \E j \in DOMAIN o.created : o.created[j] = "x" \o t \o "." \o i.fmt[e]) \o
     C("Grid", o.shapes[2] = o.shapes[1] /\ o.shapes[3] = o.shapes[1] /\ (IF nx < ny THEN nx ELSE ny) = i.n /\
               (LET s == IF i.pd = "" THEN <<1, 1>> ELSE IF i.pd = "10x8" THEN <<10, 8>> ELSE IF i.pd = "6x9" THEN <<6, 9>> ELSE <<12, 6>> IN RNear(RMul(RDiv(nx, ny), RDiv(s[2], s[1])), 1, "0.16"))) \o
     C("MapFillsFrame", \A m \in all : RSeqClose(m.at, m.frame, "0", "0.01") /\ RNear(m.axes[1].x0, m.at[1], "0.01") /\ RNear(m.axes[Len(m.axes)].x1, m.at[2], "0.01") /\ RSeqClose(m.ybox, SubSeq(m.at, 3, 4), "0", "0.01")) \o
     C("AxisJoined", \A m \in all : Joined(m.axes) /\ m.axes = A /\ RClose(tmax, TMax(xr), "1e-9") /\ RLe(tmin, TMin(xr)) /\ (Split(xr) => RLe(RMul(TMin(xr), "0.0999"), tmin)) /\ (~Split(xr) => RNear(tmin, TMin(xr), "1e-9"))) \o
     C("AreaAxis", \A m \in all : RNear(m.ylim[1], yr[1], "1e-9") /\ RNear(m.ylim[2], yr[2], "1e-9")) \o
     C("TimeTicks", \A m \in all : \A a \in DOMAIN m.axes : \A t \in DOMAIN m.tticks[a] : OnAxis(m.axes[a], m.tticks[a][t].at) => TickOk(m.tticks[a][t])) \o
     \* what is simulated: independent Poisson counts with the expectation of their age and area
     C("CountsInRange", \A r \in 1..ny : \A c \in 1..nx : o.k[r][c] \in 0..8) \o
     C("CountsSimulated",
        /\ RLe(RAbs(Sum(LAMBDA r, c : dev[r][c])), sqrt6(Sum(LAMBDA r, c : T[r][c].v)))
        /\ RLe(RAbs(RSub(Sum(LAMBDA r, c : IF o.k[r][c] = 0 THEN 1 ELSE 0), Sum(LAMBDA r, c : T[r][c].z))), sqrt6(Sum(LAMBDA r, c : RMul(T[r][c].z, RSub(1, T[r][c].z)))))
        /\ \A r \in 1..ny : \A c \in 1..nx : RLe(RAbs(dev[r][c]), RAdd(4, RMul(9, RSqrt(RAbs(T[r][c].v)))))) \o
     C("CountsIndependent",
        /\ RLe(RAbs(RSum([r \in 1..ny |-> RSum([c \in 1..(nx-1) |-> RMul(dev[r][c], dev[r][c+1])])])), RAdd(10, RMul(7, RSqrt(RSum([r \in 1..ny |-> RSum([c \in 1..(nx-1) |-> RMul(T[r][c].v, T[r][c+1].v)])])))))
        /\ RLe(RAbs(RSum([r \in 1..(ny-1) |-> RSum([c \in 1..nx |-> RMul(dev[r][c], dev[r+1][c])])])), RAdd(10, RMul(7, RSqrt(RSum([r \in 1..(ny-1) |-> RSum([c \in 1..nx |-> RMul(T[r][c].v, T[r+1][c].v)])])))))) \o
     \* what is measured from them
     C("MeasuredAges", \A j \in DOMAIN o.cells : LET x == o.cells[j] m == RDiv(q(x, "0.5"), age[x.c]) IN usable(x) =>
        IF x.age = "None" THEN RLe(m, "0.207") \/ RLe("4.83", m) ELSE RNear(x.age, RLog10(m), RMul("0.4343", tol))) \o
     C("Uncertainties", \A j \in DOMAIN o.cells : LET x == o.cells[j] IN usable(x) => RNear(x.err, RMul(100, Spread(q(x, Sigma.lower), q(x, Sigma.upper))), RAdd(1, RMul(tol, RAdd(100, x.err))))) \o
     C("LargeCountsTrue", \A j \in DOMAIN o.big : LET x == o.big[j] ll == lam(x.r, x.c) IN RLe(30, ll) =>
        x.age # "None" /\ RNear(RDiv(N1(p, RMul(RPow10(x.age), age[x.c])), N1(p, age[x.c])), 1, RAdd("0.05", RDiv(7, RSqrt(ll))))) \o
     C("LargeCountsScatter", LET G == SelectSeq(o.big, LAMBDA x : x.age # "None" /\ RLe(50, lam(x.r, x.c)) /\ RLe(lam(x.r, x.c), "2e4"))
                                 z == [j \in DOMAIN G |-> LET x == G[j] ll == lam(x.r, x.c) IN RMul(ll, RPow(RSub(RDiv(N1(p, RMul(RPow10(x.age), age[x.c])), N1(p, age[x.c])), 1), 2))]
                             IN Len(G) < 20 \/ (RLe(RMul("0.15", Len(G)), RSum(z)) /\ RSum(z) # "nan")) \o
     C("LargeCountsError", \A j \in DOMAIN o.big : LET x == o.big[j] ll == lam(x.r, x.c) IN (RLe(50, ll) /\ RLe(age[x.c], 2)) =>
        RLe(RMul(50, RDiv(1, RSqrt(ll))), RAdd(x.err, 2)) /\ RLe(x.err, RAdd(2, RMul(200, RDiv(1, RSqrt(ll)))))) \o
     \* how it is shown
     C("KLabels", \A m \in 0..8 : \E t \in DOMAIN M.k.ticks : M.k.ticks[t].s = KLabel(m) /\ M.k.ticks[t].rgb = M.k.kcol[m+1]) \o
     C("KColoursDiffer", \A m, n \in 0..7 : m # n => M.k.kcol[m+1] # M.k.kcol[n+1]) \o
     C("ErrorLabels", Len(M.err.ticks) > 1 /\ \A t \in DOMAIN M.err.ticks : RNear(M.err.ticks[t].s, M.err.ticks[t].at, "1e-6")) \o
     C("AgeLabels", Len(M.age.ticks) > 4 /\ \A t \in DOMAIN M.age.ticks : RNear(RLog10(M.age.ticks[t].s), M.age.ticks[t].at, "0.01")) \o
     C("MinimumDiameterNamed", \A m \in all : LET s == StrSplit(StrReplace(StrReplace(m.label, ")", ""), "$", ""), "d > ") IN Len(s) = 2 /\
        LET v == StrSplit(s[2], " ") IN Len(v) = 2 /\ v[2] = (IF RLt(i.d, 1) THEN "m" ELSE "km") /\ DRounded(v[1], show, 3)) \o
     C("FunctionsNamed", \A m \in all : \E t \in DOMAIN m.texts : StrHas(m.texts[t].s, "PF: " \o i.pf) /\ StrHas(m.texts[t].s, "CF: " \o i.cf)) \o
     If(~full, C("GlobeAndSaturation", \A m \in all : \A z \in pts : Cardinality(near(z[1], z[2])) = 1 => (inmap(m, z[1], z[2]) <=> shade(z[1], z[2]))) \o
               C("LimitsNamed", \A m \in all : /\ (RLt("0.01", ygl) /\ RLt(ygl, "0.97")) => Len(text(m, "whole globe")) = 1 /\ RNear(text(m, "whole globe")[1].y, ygl, "0.01")
                                               /\ RLt("1.001", ygl) => Len(text(m, "whole globe")) = 0
                                               /\ (sat(tmax) /\ sat(AgeAt(B, "0.03"))) => Len(text(m, "saturation")) = 1 /\ LET x == text(m, "saturation")[1].x IN sat(AgeAt(B, RSub(x, "0.005"))) /\ ~sat(AgeAt(B, RMin(1, RAdd(x, "0.005"))))
                                               /\ ~sat(tmax) => Len(text(m, "saturation")) = 0))
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o), C("Drawn", o.exit = "" /\ IsRec(o.maps)) \o If(o.exit = "" /\ IsRec(o.maps), Map(i, o)))
=============================================================================
