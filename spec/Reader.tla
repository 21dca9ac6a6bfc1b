------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Crater counts as files: what a .diam, .scc or .stat text says.          *)
(* A crater list is a bag of craters <<diameter, fraction, lon, lat>> with *)
(* an area (and perimeter); a pre-binned table is a sequence of bins.      *)
(* A text that does not say all of it is unreadable.                       *)
(***************************************************************************)
EXTENDS TextStruct, SequencesExt
Bad == [ok |-> FALSE]
\* ---------------------------------------------------------------- the value of a key given once
One(es, k) == LET g == At(es, k) IN IF Len(g) = 1 THEN g[1][2] ELSE [k |-> "none"]
ScalarOf(es, k) == LET v == One(es, k) IN IF v.k = "scalar" THEN v.t ELSE ""
\* the number a text begins with: `3036.6 <km^2>'
Leading(t) == IF t = "" THEN "" ELSE StrTrim(StrSplit(StrSplit(StrReplace(StrReplace(t, "\n", " "), "\t", " "), " ")[1], "<")[1])
IsNumber(t) == t # "" /\ RIsNum(t)
ColAt(v, tag) == IF v.k # "table" THEN 0 ELSE LET m == {j \in 1..Len(v.tags) : v.tags[j] = tag} IN IF m = {} THEN 0 ELSE CHOOSE j \in m : \A x \in m : j <= x
Col(v, tag) == LET j == ColAt(v, tag) IN [i \in 1..Len(v.rows) |-> v.rows[i][j]]
AllNumbers(q) == \A i \in 1..Len(q) : IsNumber(q[i])
Numbers(q) == [i \in 1..Len(q) |-> RNum(q[i])]
Ones(n) == [i \in 1..n |-> "1.0"]
\* ---------------------------------------------------------------- crater lists
Diam(es) ==
  LET c == One(es, "crater") d == ColAt(c, "diameter") b == ColAt(c, "reference_area") f == ColAt(c, "fraction")
      area == Leading(ScalarOf(es, "area")) IN
  IF d = 0 THEN Bad
  ELSE LET ds == Col(c, "diameter") n == Len(ds) IN
    IF ~AllNumbers(ds) THEN Bad
    ELSE IF b > 0 THEN
      (IF ~AllNumbers(Col(c, "reference_area")) THEN Bad
       ELSE [ok |-> TRUE, diam |-> Numbers(ds), frac |-> [i \in 1..n |-> RDiv("1", RNum(c.rows[i][b]))], area |-> "1.0", buffered |-> TRUE, perimeter |-> ""])
    ELSE IF ~IsNumber(area) \/ (f > 0 /\ ~AllNumbers(Col(c, "fraction"))) THEN Bad
    ELSE [ok |-> TRUE, diam |-> Numbers(ds), frac |-> IF f > 0 THEN Numbers(Col(c, "fraction")) ELSE Ones(n), area |-> RNum(area), buffered |-> FALSE, perimeter |-> ""]
Scc(es) ==
  LET c == One(es, "crater") d == ColAt(c, "diam") f == ColAt(c, "fraction")
      area == Leading(ScalarOf(es, "Total_area"))
      tp == Leading(ScalarOf(es, "Total_perimeter")) p == Leading(ScalarOf(es, "Perimeter")) IN
  IF d = 0 THEN Bad
  ELSE LET ds == Col(c, "diam") IN
    IF ~AllNumbers(ds) \/ ~IsNumber(area) \/ (f > 0 /\ ~AllNumbers(Col(c, "fraction"))) THEN Bad
    ELSE [ok |-> TRUE, diam |-> Numbers(ds), frac |-> IF f > 0 THEN Numbers(Col(c, "fraction")) ELSE Ones(Len(ds)), area |-> RNum(area), buffered |-> FALSE,
          perimeter |-> IF IsNumber(tp) THEN RNum(tp) ELSE IF IsNumber(p) THEN RNum(p) ELSE ""]
\* ---------------------------------------------------------------- crater lists with positions
Spatial(es) ==
  LET c == One(es, "crater") f == ColAt(c, "fraction") IN
  IF \E t \in {"diam", "lon", "lat"} : ColAt(c, t) = 0 THEN Bad
  ELSE [ok |-> TRUE, diam |-> Numbers(Col(c, "diam")), lon |-> Numbers(Col(c, "lon")), lat |-> Numbers(Col(c, "lat")), frac |-> IF f > 0 THEN Numbers(Col(c, "fraction")) ELSE Ones(Len(c.rows))]
\* ---------------------------------------------------------------- pre-binned tables
StatLines(text) == SelectSeq(StrSplit(text, "\n"), LAMBDA t : ~IsHash(t) /\ ~IsBlankText(t))
StatRows(text) == LET ls == StatLines(text) IN [i \in 1..Len(ls) |-> TLCEval(SelectSeq(StrSplit(StrReplace(ls[i], "\t", " "), " "), LAMBDA w : w # ""))]
Stat(text) ==
  LET r == TLCEval(StatRows(text)) n == Len(r) IN
  IF n < 2 \/ \E i \in 1..n : Len(r[i]) # Len(r[1]) \/ \E j \in 1..Len(r[i]) : ~IsNumber(r[i][j]) THEN Bad
  ELSE IF Len(r[1]) \notin {7, 11} THEN Bad
  ELSE LET c(j) == [i \in 1..n |-> RNum(r[i][j])] d == c(1) IN
    [ok |-> TRUE, d_min |-> d, d_max |-> [i \in 1..n |-> IF i < n THEN d[i+1] ELSE RDiv(RMul(d[n], d[n]), d[n-1])],
     n |-> c(2), n_event |-> IF Len(r[1]) = 11 THEN c(11) ELSE c(2), ncum |-> c(5), area |-> RDiv(RNum(r[1][5]), RNum(r[1][6]))]
\* ---------------------------------------------------------------- bags of pairs
Pairs(d, f) == SortSeq([i \in 1..Len(d) |-> <<d[i], f[i]>>], LAMBDA x, y : RLt(x[1], y[1]) \/ (REq(x[1], y[1]) /\ RLt(x[2], y[2])))
SamePairs(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : RClose(p[i][1], q[i][1], "1e-12") /\ RClose(p[i][2], q[i][2], "1e-12")
=============================================================================
