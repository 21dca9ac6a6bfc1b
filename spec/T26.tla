-------------------------------- MODULE T26 --------------------------------
(* C26: plots against time of the real code against TimePlot *)
EXTENDS Verdict, TimePlot, Format, Published
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
Ages == {"poisson", "c-fit", "d-fit"}
GaPer(u) == IF u = "" THEN "1" ELSE IF u \in {"Ga", "Ma", "ka", "a"} THEN RDiv(1, PerGa(u)) ELSE "nan"
TickOk(t, u) == RNear(RMul(t.num, GaPer(IF t.unit = "" THEN u ELSE t.unit)), t.at, RMul("1e-5", RMax("1e-9", RAbs(t.at))))
\* fills of the epochs from the second on; equal shades for equal codes
Fills(F, o) == /\ Len(F) = Len(o.time) - 2
               /\ \A k \in DOMAIN F : RClose(F[k].x0, o.time[k+1], "1e-6") /\ RClose(F[k].x1, o.time[k+2], "1e-6")
Shades(F, o) == \A k, m \in DOMAIN F : (o.shade[k+1] = o.shade[m+1]) <=> (F[k].face = F[m].face)
Sequences(i, o) ==
  LET P == i.plots n0 == [k \in DOMAIN P |-> k]
      S == SelectSeq(n0, LAMBDA k : P[k].type \in Ages /\ P[k].hide = 0) n == Len(S)
      A == o.axes r == IF i.xr = <<>> THEN <<"4.2", "0.01">> ELSE i.xr
      old == A[1].t0 young == A[Len(A)].t1
      mid(b) == RDiv(RAdd(b.y0, b.y1), 2)
      top(k) == SelectSeq(o.names, LAMBDA x : RNear(x.y, k, "1e-6"))
  IN C("AxisJoined", Joined(A) /\ RNear(o.frame[1], A[1].x0, "0.01") /\ RNear(o.frame[2], A[Len(A)].x1, "0.01")) \o
     C("AxisSpans", Spans(A, TMin(r), TMax(r)) /\ (Split(r) => RLe(RMul(TMin(r), "0.0999"), young)) /\ (~Split(r) => RNear(young, TMin(r), "1e-9") /\ Len(A) = 1)) \o
     C("TimeTicks", \A a \in DOMAIN A : \A t \in DOMAIN o.ticks[a] : OnAxis(A[a], o.ticks[a][t].at) => TickOk(o.ticks[a][t], "Ga")) \o
     C("HiddenLeavesNoTrace", \A k \in DOMAIN P : (\A m \in DOMAIN S : S[m] # k) => \A a \in DOMAIN A : o.el[k][a] = <<>> /\ o.bar[k][a] = <<>>) \o
     C("Violins", \A m \in DOMAIN S : LET k == S[m] IN P[k].type = "poisson" => \A a \in DOMAIN A : LET v == o.el[k][a] q == o.age[k].q IN
          /\ Len(v) = 3
          /\ RClose(v[1].x0, q[1], "0.03") /\ RClose(v[1].x1, q[5], "0.03")
          /\ RClose(v[2].x0, q[2], "0.03") /\ RClose(v[2].x1, q[4], "0.03")
          /\ RClose(v[3].x0, q[3], "0.03") /\ RClose(v[3].x1, q[3], "0.03")) \o
     C("ViolinShape", \A m \in DOMAIN S : LET k == S[m] IN P[k].type = "poisson" => LET v == o.el[k][1][1] h == v.half M == RDiv(RSub(v.y1, v.y0), 2) IN
          /\ Len(h) = Len(o.age[k].shape) /\ Len(h) > 3
          /\ \A j \in DOMAIN h : RNear(RDiv(RAdd(h[j][2], h[j][3]), 2), Height(m, n), "1e-6") /\ RNear(RDiv(RSub(h[j][2], h[j][3]), RMul(2, M)), o.age[k].shape[j], "0.03")) \o
     C("Bars", \A m \in DOMAIN S : LET k == S[m] IN P[k].type # "poisson" => \A a \in DOMAIN A : LET v == o.el[k][a] t == o.age[k].t IN
          /\ Len(v) = 1 /\ RClose(v[1].x0, t[2], "1e-5") /\ RClose(v[1].x1, t[3], "1e-5")
          /\ Len(o.bar[k][a]) = 1 /\ RClose(o.bar[k][a][1][1], t[1], "1e-5")) \o
     C("TopToBottom", \A m \in DOMAIN S : LET k == S[m] IN \A a \in DOMAIN A : \A x \in DOMAIN o.el[k][a] : LET b == o.el[k][a][x] IN
          RNear(mid(b), Height(m, n), "1e-4") /\ RLe(RSub(b.y1, mid(b)), HalfBand(n))) \o
     C("Names", Len(o.names) = n /\ \A m \in DOMAIN S : LET q == top(Height(m, n)) IN Len(q) = 1 /\ q[1].s = StrReplace(P[S[m]].name, "\\n", "|")) \o
     C("AgeTexts", IF i.legend \in {"default", "A", "Aa", "Af"}
          THEN Len(o.labels) = n /\ \A m \in DOMAIN S : LET t == o.age[S[m]].t u == UnitOf(t[1])
                 q == SelectSeq(o.labels, LAMBDA x : RNear(x.y, Height(m, n), "1e-6")) IN
               /\ Len(q) = 1 /\ IsRec(q[1].k) /\ AgeShown(q[1].k, t[1], RSub(t[3], t[1]), RSub(t[1], t[2]), i.sf, u, RLt(0, RSub(t[3], t[1]))) /\ q[1].s[1] = AgeLatex(q[1].k, TRUE, u)
               /\ Len(q[1].s) = (IF i.legend = "Aa" THEN 2 ELSE 1)
          ELSE Len(o.labels) = (IF i.legend = "a" THEN n ELSE 0)) \o
     (IF Len(o.time) = 0 THEN C("NoEpochs", \A a \in DOMAIN A : o.fills[a] = <<>> /\ o.eplabels[a] = <<>>)
      ELSE C("EpochRegions", \A a \in DOMAIN A : Fills(o.fills[a], o) /\ \A k \in DOMAIN o.fills[a] : RLe(o.fills[a][k].y0, "0.001") /\ RLe("0.999", o.fills[a][k].y1)) \o
           C("EpochShades", \A a \in DOMAIN A : Shades(o.fills[a], o)) \o
           C("EpochBounds", \A a \in DOMAIN A : RSeqClose(o.lines[a], Tail(o.time), "1e-6", "0")) \o
           C("EpochNames", \A a \in DOMAIN A : LET L == o.eplabels[a] IN Len(L) = Len(o.epoch) /\
               \A k \in DOMAIN L : /\ L[k].s = Initials(o.epoch[k])
                                   /\ OnAxis(A[a], L[k].x) => RLe(o.time[k], L[k].x) /\ RLe(L[k].x, EpochEnd(o.time, k, old))) \o
           C("EveryEpochNamed", \A k \in DOMAIN o.epoch : RLt(RMax(o.time[k], young), RMul("0.999999", RMin(old, EpochEnd(o.time, k, old)))) =>
               \E a \in DOMAIN A : OnAxis(A[a], o.eplabels[a][k].x)))
Chronologies(i, o) ==
  LET p == Pub(ChronFns, i.cf).p f == Pub(ProdFns, i.pf) rt == IF REq(i.refd, 1) THEN "1" ELSE Ratio(f, i.refd)
      y(q, t) == RLog10(Curve(p, i.rate, q, t))
      on(c, q) == Len(c.v) > 5 /\ \A j \in DOMAIN c.v : RNear(c.v[j][2], y(q, c.v[j][1]), "1e-3")
      L == o.legend
      timed == SelectSeq(o.texts, LAMBDA t : StrHas(t.s, " ") /\ RIsNum(StrReplace(t.s, " ", "")))
  IN C("ChronologyCurve", Len(o.curves) = (IF REq(i.refd, 1) THEN 1 ELSE 2) /\ (\E c \in DOMAIN o.curves : on(o.curves[c], 1)) /\ (\E c \in DOMAIN o.curves : on(o.curves[c], rt))) \o
     C("ChronologyLegend", IF REq(i.refd, 1) THEN Len(L) = 0 ELSE Len(L) = 2 /\ \A m \in 1..2 :
          LET want == IF StrHas(L[m].s, "N(>1 km)") THEN "1" ELSE rt IN
          (m = 1 => StrHas(L[1].s, "(>" \o i.refd \o " km)") # StrHas(L[2].s, "(>" \o i.refd \o " km)")) /\ (\E c \in DOMAIN o.curves : o.curves[c].rgb = L[m].rgb /\ on(o.curves[c], want))) \o
     C("AxisTitle", StrHas(o.ylabel, "N(>" \o i.refd \o " km)")) \o
     C("TimeTicks", \A t \in DOMAIN o.ticks : RLt(o.ticks[t].at, 0) \/ TickOk(o.ticks[t], "Ga")) \o
     If(Len(o.time) > 0,
       C("EpochRegions", Fills(o.fills, o) /\ \A k \in DOMAIN o.fills : \A j \in DOMAIN o.fills[k].v : LET q == o.fills[k].v[j] IN RNear(q[2], y(1, q[1]), "0.01") \/ RLt(q[2], RSub(y(1, q[1]), 5))) \o
       C("EpochShades", Shades(o.fills, o)) \o
       C("EpochBounds", RSeqClose(o.lines, Tail(o.time), "1e-6", "0")) \o
       C("EpochTimes", Len(timed) = Len(o.time) - 1 /\ \A m \in DOMAIN timed : (\E k \in DOMAIN o.time : RNear(timed[m].x, o.time[k], "1e-6")) /\ DRounded(StrReplace(timed[m].s, " ", ""), timed[m].x, 3)) \o
       C("EpochNames", \A k \in DOMAIN o.epoch : LET q == SelectSeq(o.texts, LAMBDA t : t.s = o.epoch[k]) IN Len(q) = 1 /\
            RLe(RSub(o.time[k], "0.05"), q[1].x) /\ RLe(q[1].x, EpochEnd(o.time, k, RMaxSeq(o.xlim)))))
Craters(i, o) ==
  LET p == Pub(ChronFns, i.cf).p f == Pub(ProdFns, i.pf) P == i.plots
      on(q, t) == LET w == FnForm(f, i.pres, A0(p, t), RPow10(q[1])) IN IF RLe(w, "0") THEN TRUE ELSE RNear(q[2], RLog10(w), "2e-3")   \* a published polynomial may fall below zero at the end of its range: nothing to draw there
      B == SelectSeq([k \in 1..Len(o.time) |-> k], LAMBDA k : k >= 2 /\ k <= Len(o.time) - 1 /\ o.bound[k-1])
  IN (IF Len(o.time) = 0 THEN C("NoEpochs", o.fills = <<>>)
      ELSE C("EpochBands", Len(o.fills) = Len(o.time) - 2 /\ \A k \in DOMAIN o.fills :
               LET v == o.fills[k].v a(j) == on(v[j], o.time[k+1]) b(j) == on(v[j], o.time[k+2]) IN
               (\A j \in DOMAIN v : a(j) \/ b(j)) /\ (\E j \in DOMAIN v : a(j)) /\ (\E j \in DOMAIN v : b(j))) \o
           C("EpochShades", Shades(o.fills, o)) \o
           C("EpochBounds", Len(o.lines) = Len(B) /\ \A m \in DOMAIN B : \E c \in DOMAIN o.lines : \A j \in DOMAIN o.lines[c] : on(o.lines[c][j], o.time[B[m]]))) \o
     C("Insets", \A k \in DOMAIN P : IsRec(o.insets[k]) => LET w == o.insets[k] IN
          Len(w.ax) = 1 /\ LET a == w.ax[1] IN
            /\ Len(a.curve) > 3 /\ \A j \in DOMAIN a.curve : RNear(a.curve[j][2], a.curve[j][3], "0.02")
            /\ Len(a.shade) = 1 /\ RClose(a.shade[1][1], w.t[2], "0.03") /\ RClose(a.shade[1][2], w.t[3], "0.03")
            /\ RNear(a.xlim[1], 0, "1e-12") /\ RLe(RMul("0.99", w.q[2]), a.xlim[2])) \o
     C("InsetTicks", \A k \in DOMAIN P : IsRec(o.insets[k]) => \A x \in DOMAIN o.insets[k].ax :
          LET t == o.insets[k].ax[x].ticks IN Len(t) >= 2 /\ t[Len(t)].unit # "" /\ \A j \in DOMAIN t : TickOk(t[j], t[Len(t)].unit))
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o), C("Drawn", o.exit = "") \o
   If(o.exit = "", CASE e.ev = "sequence" -> Sequences(i, o) [] e.ev = "chronology" -> Chronologies(i, o) [] e.ev = "epochs" -> Craters(i, o)))
=============================================================================
