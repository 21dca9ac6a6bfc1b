-------------------------------- MODULE T07 --------------------------------
(* C07: production and equilibrium functions of the real code against Prod and Published *)
EXTENDS Verdict, Prod, Published
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
Fn(i) == CASE i.kind = "production"  -> Pub(ProdFns, i.name)
           [] i.kind = "equilibrium" -> Pub(EquilFns, i.name)
           [] OTHER -> i.fn
Const(i, f) == IF i.a0 = "None" THEN OwnA0(f) ELSE i.a0
NameSet(s) == {s[k] : k \in DOMAIN s}
\* curves are evaluated in single precision when the range of the function is stated in the table
CurveTol == "1e-4"
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "listed" ->
           C("FunctionsListed", \A j \in DOMAIN ProdFns : ProdFns[j].name \in NameSet(o.production)) \o
           C("FunctionsListed", \A j \in DOMAIN EquilFns : EquilFns[j].name \in NameSet(o.equilibrium))
      [] e.ev = "point" ->
           LET f == Fn(i) a == Const(i, f) rg == FnRange(f)
               R(p, d) == RClose(o.v[p][d], FnForm(f, p, a, i.d[d]), "1e-8") IN
           C("Range", RClose(o.range[1], rg[1], "1e-6") /\ RClose(o.range[2], rg[2], "1e-6")) \o
           C("Cumulative", \A k \in DOMAIN i.d : R("cumulative", k)) \o
           C("Differential", \A k \in DOMAIN i.d : R("differential", k)) \o
           C("RForm", \A k \in DOMAIN i.d : R("R-plot", k)) \o
           C("HartmannForm", \A k \in DOMAIN i.d : R("Hartmann", k)) \o
           C("LogForms", \A k \in DOMAIN i.d : RNear(o.c10[k], RLog10(FnForm(f, "cumulative", a, i.d[k])), "1e-9")
                /\ RNear(o.f10[k], RLog10(FnForm(f, "differential", a, i.d[k])), "1e-9")) \o
           C("RaisedConstant", \A p \in CurvePresentations : \A k \in DOMAIN i.d :
                RClose(o.up[p][k], RMul(o.v[p][k], RPow10(i.shift)), "1e-8")) \o
           C("ScalarAsVector", \A p \in CurvePresentations : RClose(o.scalar[p], o.v[p][1], "1e-10"))
      [] e.ev = "curve" ->
           LET f == Fn(i) a == Const(i, f) rg == FnRange(f) n == Len(o.d)
               want == IF IsStr(i.range) THEN rg ELSE <<Clamp(i.range[1], rg), Clamp(i.range[2], rg)>> IN
           C("CurveSamples", n = Len(o.y) /\ n >= 20 /\ \A k \in 1..n : RClose(o.y[k], FnForm(f, i.pres, a, o.d[k]), CurveTol)) \o
           C("CurveSpan", RClose(o.d[1], want[1], "1e-6") /\ RClose(o.d[n], want[2], "1e-6") /\ RIsAscending(o.d)) \o
           C("CurveSmooth", o.maxstep = "nan" \/ RLe(o.maxstep, RAdd("1e-9", RDiv(RLog10(RDiv(want[2], want[1])), 150))))
      [] e.ev = "user" ->
           C("UserFileIgnored", i.file \in {"missing", "none", "blank"} =>
                NameSet(o.production) = NameSet(o.base) /\ Len(o.production) = Len(o.base)) \o
           C("UserFunction", i.file = "valid" =>
                /\ NameSet(o.production) = NameSet(o.base) \cup {"user fn"}
                /\ \A p \in CurvePresentations : \A k \in DOMAIN i.d : RClose(o.v[p][k], PolyForm(p, i.coef, i.coef[1], i.d[k]), "1e-8")) \o
           C("PublishedUnaffected", \A j \in DOMAIN o.base : o.production[j] = o.base[j]))
=============================================================================
