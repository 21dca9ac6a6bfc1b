-------------------------------- MODULE T17 --------------------------------
(* C17: sequence probabilities, sequence table and epochs of the real code against Sequence *)
EXTENDS Verdict, Sequence, Published
Pub(tab, name) == tab[CHOOSE j \in DOMAIN tab : tab[j].name = name]
Clip(x, r) == RMin(RMax(x, r[1]), r[2])
K(i, s) == RCountIn(s.diam, Clip(s.range[1], i.pfrange), Clip(s.range[2], i.pfrange))
U(i, s) == RMul(s.area, RSub(Cum(i.coef, 0, Clip(s.range[1], i.pfrange)), Cum(i.coef, 0, Clip(s.range[2], i.pfrange))))
\* the age law lies inside the 5 Ga of the model and above the resolution
Full(i, s) == LET k == K(i, s) u == U(i, s) IN
   /\ RLt(0, u) /\ RLt(RGammaQ(k + 1, RMul(u, N1(i.chron, 5))), "1e-6")
   /\ RLt(RMul(u, N1(i.chron, "1e-6")), RAdd("1e-3", RDiv(k, 1000)))
Prob(x) == RLe(RNeg("1e-9"), x) /\ RLe(x, "1.000000001")
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "pair" ->
           LET a == i.surfaces[1] b == i.surfaces[2] IN
           C("Probability", Prob(o.p12) /\ Prob(o.p21)) \o
           C("Complement", RNear(RAdd(o.p12, o.p21), 1, "1e-3")) \o
           C("HalfAgainstItself", RNear(o.p11, "0.5", "1e-3")) \o
           If(Full(i, a) /\ Full(i, b),
              C("RaceProbability", RNear(o.p12, POlder(K(i, a), U(i, a), K(i, b), U(i, b)), "3e-3"))) \o
           C("MoreCratersOlder", RLe(o.p12, RAdd(o.pmore, "1e-6")) /\ RLe(o.pless, RAdd(o.p12, "1e-6"))) \o
           If(Full(i, a) /\ Full(i, b) /\ RLt("0.05", o.p12) /\ RLt(o.p12, "0.95") /\ K(i, a) < 200,
              C("MoreCratersStrictlyOlder", RLt(o.p12, o.pmore)))
      [] e.ev = "table" ->
           LET n == Len(i.shown) IN
           IF n < 2 THEN C("NoTableForOne", o.file = FALSE)
           ELSE C("TableWritten", o.file /\ Len(o.cells) = n /\ o.names = i.shown) \o
                If(o.file /\ Len(o.cells) = n,
                   C("TableNames", \A k \in 1..n : o.rows[k] = i.shown[k]) \o
                   \* row y, column x: probability that x is older than y
                   C("TableProbabilities", \A y, x \in 1..n : IF x = y THEN o.cells[y][x] = "" ELSE
                        (RClose(o.cells[y][x], o.p[x][y], "0.0501") \/ RNear(o.cells[y][x], o.p[x][y], "1e-6"))) \o
                   C("TableMedians", Len(o.medians) = n /\ \A k \in 1..n : RClose(o.medians[k], o.t[k], "0.00501")) \o
                   C("TableMean", RClose(o.mean, RDiv(RSum(o.t), n), "0.0006")) \o
                   C("TableCompound", Prob(o.compound)) \o
                   LET q == SelectSeq(i.surfaces, LAMBDA x : x.type = "poisson" /\ x.hide = 0) IN
                   If(\A k \in 1..n : Full(i, q[k]),
                      C("SimultaneousFormation", RNear(o.compound, MoreDistant(i.chron, [k \in 1..n |-> K(i, q[k])], [k \in 1..n |-> U(i, q[k])], o.t),
                                                       RAdd("0.003", RMul("0.003", RSqrt(RSum([k \in 1..n |-> K(i, q[k]) + 1]))))))))
      [] e.ev = "epochs" ->
           LET ep == IF i.name = "" THEN i.ep ELSE Pub(EpochSystems, i.name)
               f == IF i.pf = "" THEN i.fn ELSE Pub(ProdFns, i.pf)
               p == IF IsStr(i.chron) THEN Pub(ChronFns, i.chron).p ELSE i.chron IN
           IF Len(ep.time) > 0
           THEN C("TimesAsGiven", RSeqClose(o.time, ep.time, "0", "0"))
           ELSE C("EpochCount", Len(o.time) = Len(ep.density) + 1 /\ REq(o.time[1], 0)) \o
                C("DensityReached", Len(o.time) = Len(ep.density) + 1 /\
                   \A k \in DOMAIN ep.density : EpochAt(f, p, o.time[k+1], ep.ref[k], ep.density[k])))
=============================================================================
