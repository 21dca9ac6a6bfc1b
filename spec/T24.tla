-------------------------------- MODULE T24 --------------------------------
(* C24: isochron curves and lists of the real code against Isochron *)
EXTENDS Verdict, Isochron, Published
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
Fn(i) == IF i.name = "" THEN i.fn ELSE Pub(ProdFns, i.name)
Cp(i) == IF IsStr(i.chron) THEN Pub(ChronFns, i.chron).p ELSE i.chron
NoEf(i) == IsStr(i.ef) /\ i.ef = "None"
Unit(u) == CASE u = "Ga" -> "1" [] u = "Ma" -> "1e-3" [] u = "ka" -> "1e-6" [] u = "a" -> "1e-9" [] OTHER -> "nan"
LabelOK(txt, age) == LET q == StrSplit(txt, " ") u == Unit(q[2]) IN
   Len(q) = 2 /\ RClose(RMul(q[1], u), age, "1e-5") /\ (q[2] = "a" \/ RLe("0.9999", q[1])) /\ (q[2] = "Ga" \/ RLt(q[1], "1000.01"))
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "curve" ->
           LET f == Fn(i) a0 == A0(Cp(i), i.age) n == Len(o.d)
               want == SelectSeq([k \in 1..Len(o.full.d) |-> k], LAMBDA k : NoEf(i) \/ (HasEquil(o.e, o.full.d[k]) /\ Allowed(o.e, o.full.d[k], o.full.y[k])))
               \* points without an equilibrium value below them, and borderline ones, may go either way
               free(k) == ~NoEf(i) /\ (~HasEquil(o.e, o.full.d[k]) \/ Borderline(o.e, o.full.d[k], o.full.y[k]))
               kept(k) == RCountIn(o.d, o.full.d[k], RMul(o.full.d[k], "1.000000001")) = 1
           IN C("ConstantOfAge", RNear(o.a0, a0, "1e-9")) \o
              C("ProductionCurve", \A k \in {1, 100, 200, 300, 399} : RClose(o.full.y[k], FnForm(f, i.pres, a0, o.full.d[k]), "1e-4")) \o
              C("CutAtEquilibrium", \A k \in 1..Len(o.full.d) : free(k) \/ (kept(k) <=> \E j \in DOMAIN want : want[j] = k)) \o
              C("NothingAdded", n = Len(o.y) /\ RIsStrictlyAscending(o.d) /\ n <= Len(o.full.d)) \o
              C("ValuesUnchanged", \A j \in 1..n : LET k == RCountIn(o.full.d, "-inf", o.d[j]) + 1 IN REq(o.full.d[k], o.d[j]) /\ REq(o.full.y[k], o.y[j])) \o
              If(NoEf(i), C("NoEquilibriumNoCut", n = Len(o.full.d)))
      [] e.ev = "list" ->
           LET v == Valid(i.entries)
               \* entries whose curve has points left
               drawn == SelectSeq([k \in DOMAIN v |-> k], LAMBDA k : o.npts[k] > 0)
               lab == SelectSeq([j \in DOMAIN drawn |-> j], LAMBDA j : ~Hidden(v[drawn[j]]) /\ o.inplot[drawn[j]])
               low(j) == v[drawn[lab[j]]]
           IN C("OneCurvePerAge", Len(o.lines) = Len(drawn)) \o
              If(Len(o.lines) = Len(drawn),
                 C("CurvesInOrder", \A j \in DOMAIN drawn : Len(o.lines[j]) = 3 /\ RClose(o.lines[j][1], o.npts[drawn[j]], "0") /\
                      (RClose(RPow10(o.lines[j][2]), o.first[drawn[j]][1], "1e-6") /\ RClose(o.lines[j][3], o.first[drawn[j]][2], "1e-6")))) \o
              C("Labels", Len(o.labels) = Len(lab) /\ \A j \in DOMAIN lab : LabelOK(o.labels[j].text, low(j).age)) \o
              If(Len(o.labels) = Len(lab),
                 C("LabelPlacement", \A j \in DOMAIN lab : o.labels[j].va = (IF SufHas(low(j), "a") THEN "bottom" ELSE "top")) \o
                 C("LabelSize", \A j, k \in DOMAIN lab : (SufHas(low(j), "s") /\ ~SufHas(low(k), "s")) => RLt(o.labels[j].size, o.labels[k].size))))
=============================================================================
