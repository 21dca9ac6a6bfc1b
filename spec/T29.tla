-------------------------------- MODULE T29 --------------------------------
(* C29: histories of commands of the real code against Session *)
EXTENDS Verdict, Session, Published, Chron, Prod
Range(q) == {q[k] : k \in DOMAIN q}
Builtin == [k \in Kinds |-> LET t == IF k = "chronology_system" THEN Systems ELSE IF k = "equilibrium" THEN EquilFns ELSE EpochSystems IN {t[j].name : j \in DOMAIN t}]
Contents(i) == [c \in DOMAIN i.contents |-> [k \in Kinds |-> {i.contents[c][k][j].name : j \in DOMAIN i.contents[c][k]}]]
Cumulative(coef, d) == RPow10(RSum([j \in 1..Len(coef) |-> RMul(coef[j], RPow(RLog10(d), j - 1))]))
\* what was chosen is what the content defines
IsDefined(d, k, o) ==
  CASE k = "chronology_system" -> /\ o.names = <<d.name, d.name>> /\ RClose(o.val[1][1], N1(d.cf, 1), "1e-9") /\ RClose(o.val[1][2], N1(d.cf, 3), "1e-9")
                                  /\ RClose(o.val[2][1], Cumulative(d.pf, 1), "1e-9") /\ RClose(o.val[2][2], Cumulative(d.pf, 4), "1e-9")
    [] k = "equilibrium" -> o.names = <<d.name>> /\ RClose(o.val[2][1], Cumulative(d.pf, 1), "1e-9") /\ RClose(o.val[2][2], Cumulative(d.pf, 4), "1e-9")
    [] k = "epochs" -> o.names = <<d.name>> /\ Len(o.val[1]) = Len(d.time) /\ \A j \in DOMAIN d.time : RClose(o.val[1][j], d.time[j], "1e-9")
Built(k, n, o) == CASE k = "chronology_system" -> LET q == CHOOSE j \in DOMAIN Systems : Systems[j].name = n IN o.names = <<Systems[q].cf, Systems[q].pf>>
                    [] OTHER -> o.names = <<n>>
StepOk(i, s, a, o) ==
  LET L == Listing(Builtin, Contents(i), s) IN
  If(a.op \notin {"write", "remove", "cd", "count"}, C("SameAlone", o.alone)) \o
  CASE a.op = "set" -> IF i.conda THEN C("SetAccepted", o.exit = "") ELSE C("SetRefused", o.exit = "SystemExit" /\ o.wrote = <<>>)
    [] a.op = "demo" -> C("DemoMade", o.exit = "" /\ o.made = o.asked)
    [] a.op = "list" -> C("ListingShowsDefined", o.exit = "" /\ \A k \in Kinds : Range(o.shown[k]) = L[k] /\ Len(o.shown[k]) = Cardinality(L[k]))
    [] a.op = "choose" ->
         C("ChosenExactlyListed", IF a.name \in L[a.kind] THEN o.exit = "" ELSE o.exit = "SystemExit") \o
         If(o.exit = "" /\ a.name \in L[a.kind],
            C("ChosenIsDefined", IF a.name \in Builtin[a.kind] THEN Built(a.kind, a.name, o)
                                 ELSE LET q == i.contents[s.disk[s.cfg]][a.kind] IN IsDefined(q[CHOOSE j \in DOMAIN q : q[j].name = a.name], a.kind, o)))
    [] a.op = "refused" -> C("RefusedWritesNothing", o.exit = "SystemExit" /\ o.wrote = <<>>)
    [] a.op = "symbols" -> C("SymbolsListed", o.exit = "" /\ Len(o.symbols) >= 10 /\ Len(o.colours) >= 6 /\ Cardinality(Range(o.colours)) = Len(o.colours) /\ Cardinality(Range(o.symbols)) = Len(o.symbols))
    [] a.op = "draw" -> C("SymbolDrawn", o.exit = "" /\ o.psym = o.symbol /\ o.mark # "")
    [] OTHER -> <<>>
RECURSIVE Walk(_, _, _, _)
Walk(i, o, s, k) == IF k > Len(i.steps) THEN <<>> ELSE StepOk(i, s, i.steps[k], o.steps[k]) \o Walk(i, o, TLCEval(IF i.conda \/ i.steps[k].op # "set" THEN Apply(s, i.steps[k]) ELSE s), k + 1)
\* symbols and colours: one drawing for each name, different ones for different names
Draws(i, o) == {k \in DOMAIN i.steps : i.steps[k].op = "draw" /\ Has(o.steps[k], "psym")}
J(s, e) ==
  LET i == e.in o == e.out
      start == [disk |-> [f \in {i.start.file} |-> "A"], cfg |-> "", dir |-> i.start.dir]
      D == Draws(i, o) IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o), Walk(i, o, start, 1) \o
     Flat([k \in 1..Len(i.steps) |-> If(k \in D, C("ColourDrawn", \A j \in D : (o.steps[j].ink = o.steps[k].ink) <=> (o.steps[j].colour = o.steps[k].colour)) \o
                                                C("SymbolDistinct", \A j \in D : (o.steps[j].mark = o.steps[k].mark) <=> (o.steps[j].psym = o.steps[k].psym)))]))
=============================================================================
