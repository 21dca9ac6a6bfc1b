-------------------------------- MODULE T25 --------------------------------
(* C25: figures of crater plots against Figure *)
EXTENDS Verdict, Figure, Published, Binning
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
Near(a, b) == RNear(a[1], b[1], "1e-6") /\ RNear(a[2], b[2], "1e-6")
Within(o, q, m) == RLt(RAdd(o.xlim[1], m), q[1]) /\ RLt(q[1], RSub(o.xlim[2], m)) /\ RLt(RAdd(o.ylim[1], m), q[2]) /\ RLt(q[2], RSub(o.ylim[2], m))
\* the perimeter accompanies the area wherever a buffered count is analysed
CodeSet(i) == LET s == IF i.legend = "default" THEN "fnacr" ELSE i.legend
                  given == {x \in {"f", "n", "a", "p", "c", "r", "N"} : StrHas(s, x)}
              IN IF "a" \in given /\ (\E k \in DOMAIN i.plots : i.plots[k].type = "b-poisson") THEN given \cup {"p"} ELSE given
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o) /\ o.exit = "",
    LET P == i.plots pf == Pub(ProdFns, i.pf) codes == CodeSet(i)
        sh(k) == Shown(P[k], i.pres)
        S == SelectSeq([k \in DOMAIN P |-> k], LAMBDA k : sh(k))
        n(k) == Len(o.data[k].x)
        D == TLCEval([k \in DOMAIN P |-> IF sh(k) THEN [j \in 1..n(k) |-> <<o.data[k].x[j], RLog10(o.data[k].y[j])>>] ELSE <<>>])
        V(k) == o.marks[k].v
        B == TLCEval(Flat([k \in DOMAIN P |-> IF sh(k) /\ P[k].error_bars = 1 THEN
               [j \in 1..n(k) |-> LET y == o.data[k].y[j] er == o.data[k].err[j] IN
                   <<o.data[k].x[j], RLog10(RAdd(y, er)), IF RLe(RSub(y, er), RMul(y, "1e-9")) THEN "-inf" ELSE RLog10(RSub(y, er))>>] ELSE <<>>]))
        rng(k) == <<Clamp(o.data[k].range[1], FnRange(pf)), Clamp(o.data[k].range[2], FnRange(pf))>>
        open(k) == RLt(rng(k)[1], rng(k)[2])
        On(k, q) == RNear(q[2], RLog10(FnForm(pf, i.pres, o.data[k].a0, RPow10(q[1]))), "1e-3")
        follows(k, c) == \A j \in DOMAIN c : On(k, c[j]) \/ RLt(FnRange(pf)[2], RPow10(RSub(c[j][1], "1e-6"))) \/ RLt(RPow10(RAdd(c[j][1], "1e-6")), FnRange(pf)[1])
        cd(k) == Codes(P[k], LAMBDA x : x \in codes, o.data[k].perimeter)
        rows == SelectSeq(S, LAMBDA k : Len(cd(k)) > 0)
        iso == SelectSeq(S, LAMBDA k : IsFit(P[k]) /\ P[k].isochron = 1)
    IN C("MarksShown", \A m \in DOMAIN S : LET k == S[m] IN
            /\ \A j \in 1..n(k) : Within(o, D[k][j], "1e-9") => \E v \in DOMAIN V(k) : Near(V(k)[v], D[k][j])
            /\ \A v \in DOMAIN V(k) : Within(o, V(k)[v], "1e-6") => \E j \in 1..n(k) : Near(V(k)[v], D[k][j])
            /\ Len(V(k)) <= n(k)) \o
       C("HiddenLeavesNoTrace", \A k \in DOMAIN P : ~sh(k) => o.used[k] = 0) \o
       C("ErrorBars", Len(o.bars) = Len(B) /\ \A j \in DOMAIN B : \E b \in DOMAIN o.bars :
            RNear(o.bars[b][1], B[j][1], "1e-6") /\ RNear(o.bars[b][2], B[j][2], "1e-5") /\ (IF B[j][3] = "-inf" THEN RLe(o.bars[b][3], o.ylim[1]) ELSE RNear(o.bars[b][3], B[j][3], "1e-5"))) \o
       C("FitCurve", \A k \in DOMAIN P : IF sh(k) /\ IsFit(P[k])
            THEN open(k) => (Len(o.curves[k]) = 1 /\ follows(k, o.curves[k][1])
                             /\ RNear(o.curves[k][1][1][1], RLog10(rng(k)[1]), "0.006") /\ RNear(o.curves[k][1][Len(o.curves[k][1])][1], RLog10(rng(k)[2]), "0.006"))
            ELSE Len(o.curves[k]) = 0) \o
       If(i.plain, C("Isochron", Len(o.others) = Len(iso) /\ \A m \in DOMAIN iso : \E c \in DOMAIN o.others :
            follows(iso[m], o.others[c]) /\ RNear(o.others[c][1][1], RLog10(FnRange(pf)[1]), "0.01") /\ RNear(o.others[c][Len(o.others[c])][1], RLog10(FnRange(pf)[2]), "0.01"))) \o
       C("AgeLabel", \A k \in DOMAIN P : o.texts[k] = (IF sh(k) /\ IsFit(P[k]) /\ P[k].show_age = 1 THEN 1 ELSE 0)) \o
       C("AgeLabelSide", \A k \in DOMAIN P : (Len(o.label[k]) = 1 /\ Len(o.curves[k]) = 1) =>
            LET x == o.curves[k][1][1][1] IN IF P[k].age_left = 1 THEN RLt(o.label[k][1][2], x) ELSE RLt(x, o.label[k][1][1])) \o
       If(Len(S) > 1, C("EarlierInFront", \A a, b \in DOMAIN S : a < b => \A x \in DOMAIN o.marks[S[a]].at : \A y \in DOMAIN o.marks[S[b]].at : o.marks[S[a]].at[x] > o.marks[S[b]].at[y])) \o
       C("Symbols", \A a, b \in DOMAIN S : LET p == o.marks[S[a]].sig q == o.marks[S[b]].sig IN
            (Len(p) > 0 /\ Len(q) > 0) => ((P[S[a]].psym = P[S[b]].psym) <=> (p[1] = q[1]))) \o
       C("Filled", \A a \in DOMAIN S : LET k == S[a] p == o.marks[k] IN Len(p.face) > 0 =>
            (CASE P[k].psym \in {"fs", "fo", "f*4", "f^", "f*", "fv"} -> p.face[1] = P[k].colour
               [] P[k].psym \in {"s", "o", "*4", "^", "*", "v"} -> p.face[1] = ""
               [] OTHER -> TRUE)) \o
       C("LegendEntries", Len(o.legend) = Len(rows) /\ \A m \in DOMAIN rows : LET k == rows[m] w == o.legend[m] IN
            /\ w.marks = <<P[k].colour>>
            /\ (w.lines # <<>>) = IsFit(P[k]) /\ \A x \in DOMAIN w.lines : w.lines[x] = P[k].colour
            /\ (m > 1 => RLt(w.y, o.legend[m-1].y))) \o
       If(Len(o.legend) = Len(rows),
          C("LegendTexts", \A m \in DOMAIN rows : LET k == rows[m] q == StrSplit(o.legend[m].text, ", ") c == cd(k) IN
            Len(q) = Len(c) /\ \A x \in DOMAIN c :
              CASE c[x] = "n" -> q[x] = (IF P[k].name # "" THEN P[k].name ELSE StrSplit(P[k].source, ".")[1])
                [] c[x] = "c" -> StrHas(q[x], "crater")
                [] c[x] = "N" -> StrHas(q[x], "N(")
                [] OTHER -> ~StrHas(q[x], "crater") /\ ~StrHas(q[x], "N(")) \o
          C("LegendSymbols", \A m \in DOMAIN rows : LET k == rows[m] w == o.legend[m] IN Len(w.sig) = 1 /\ Len(o.marks[k].sig) > 0 => w.sig[1] = o.marks[k].sig[1])) \o
       If(Len(o.legend) > 0, C("HaloAsAsked", o.halo = (i.halo # 0))) \o
       C("FunctionsNamed", IF "f" \in codes THEN StrHas(o.functions, "CF: ") /\ StrHas(o.functions, i.cf) /\ StrHas(o.functions, "PF: ") /\ StrHas(o.functions, i.pf) /\ (i.ef = "T") = StrHas(o.functions, "EF: ")
                           ELSE o.functions = "") \o
       LET dp == SelectSeq([k \in DOMAIN P |-> k], LAMBDA k : P[k].type = "data")
           b == IF dp = <<>> THEN "none" ELSE IF StrHas(P[dp[1]].source, ".stat") THEN "none" ELSE P[dp[1]].binning
           k0 == EdgeIndex(b, RPow10(o.xlim[1]), 0) k1 == EdgeIndex(b, RPow10(o.xlim[2]), 0)
           L == o.binlabels
       IN (IF i.bins = 0 THEN C("NoBinBoundaries", L = <<>>)
           ELSE If(b # "none", C("BinBoundaries",
            /\ \A j \in DOMAIN L : OnGrid(b, RPow10(L[j].x), 0) /\ (\E q \in {0, 1} : RClose(RMul(L[j].s, RPow10(q + RFloor(RAdd(L[j].x, "1e-9")))), RPow10(L[j].x), "0.051"))
            /\ \A k \in k0..k1 : LET g == RLog10(Edge(b, k, 0)) IN (RLt(RAdd(o.xlim[1], "1e-6"), g) /\ RLt(g, RSub(o.xlim[2], "1e-6"))) => \E j \in DOMAIN L : RNear(L[j].x, g, "1e-8")))) \o
       C("TickLabels", \A t \in DOMAIN o.ticks : LET k == o.ticks[t]
             u == CASE k.unit = "km" -> "1" [] k.unit = "m" -> "1e-3" [] OTHER -> IF RLt(k.at, "-1e-9") THEN "1e-3" ELSE "1"
          IN RClose(RMul(k.num, u), RPow10(k.at), "0.03")))
=============================================================================
