-------------------------------- MODULE T19 --------------------------------
(* C19: measures and scores of the real analysis against the definitions on the sphere *)
EXTENDS Verdict, Measures
Vs(q) == [i \in 1..Len(q) |-> VOf(q[i][1], q[i][2])]
Area(parts) == FlattenSeq([k \in 1..Len(parts) |-> <<[pts |-> Ring(parts[k].shell), hole |-> FALSE]>> \o
                   [j \in 1..Len(parts[k].holes) |-> [pts |-> Ring(parts[k].holes[j]), hole |-> TRUE]]])
Sq(x) == RMul(x, x)
\* the craters of a bin are listed in some order: order[i] of the output is crater i of the bin
SameSet(p, q) == Len(p) = Len(q) /\ (\A i \in 1..Len(p) : \E j \in 1..Len(q) : RLt(VAngle(p[i], q[j]), "1e-9")) /\ (\A j \in 1..Len(q) : \E i \in 1..Len(p) : RLt(VAngle(p[i], q[j]), "1e-9"))
M2(R, p, b) ==
  LET d == TLCEval([i \in 1..Len(p) |-> Second(p, i)]) nb == Vs(b.nb) slack == "1e-11" IN
  C("M2cnd", RNear(b.m0, RMul(R, RMean(d)), RAdd(RMul(R, slack), RMul("1e-7", RMul(R, RMean(d)))))) \o
  C("Neighbours", Len(nb) = Len(p) /\ \A i \in 1..Len(p) : RNear(VAngle(p[i], nb[i]), d[i], RAdd("1e-9", RMul("1e-7", d[i])))) \o
  C("NeighboursAreCraters", \A i \in 1..Len(nb) : \E j \in 1..Len(p) : RLt(VAngle(nb[i], p[j]), "1e-9"))
Sd2(R, A, p, b) ==
  LET F == TLCEval(Fans(A)) a == TLCEval(AreaOf(A)) cells == TLCEval(Cells(F, p)) tol == RMul("2e-5", RDiv(a, RNum(Len(p)))) IN
  C("SpecCells", RClose(RSum(cells), a, "1e-7")) \o
  C("Sdaa", RNear(RDiv(b.m0, Sq(R)), RStd(cells), tol)) \o
  C("CellsInOrder", Len(b.cells) = Len(p) /\ \A i \in 1..Len(p) : RNear(RDiv(b.cells[i], Sq(R)), cells[i], RMul("3", tol)))
Bin(i, A, b) ==
  LET k == RRound(RMul("2", b.key))
      mem == Members(i.diam, k)
      own == [j \in 1..Len(mem) |-> VOf(i.lon[mem[j]], i.lat[mem[j]])]
      p == TLCEval(Vs(b.order))
  IN C("BinCraters", SameSet(own, p)) \o
     If(SameSet(own, p), IF i.measure = "m2cnd" THEN M2(i.R, p, b) ELSE Sd2(i.R, A, p, b)) \o
     C("TrialCount", Len(b.trials) = i.T) \o
     If(Len(b.trials) > 0 /\ RLt(RMul("1e-6", RAbs(Mean(b.trials))), Sd(b.trials)),
        C("MeanSd", RClose(b.mn, Mean(b.trials), "1e-9") /\ RClose(b.sd, Sd(b.trials), "1e-7")) \o
        C("Score", RNear(b.n_sigma, Score(b.m0, b.trials), RAdd("1e-9", RMul("1e-6", RAbs(Score(b.m0, b.trials)))))) \o
        C("Percentile", RNear(b.percentile, Percentile(b.m0, b.trials), "1e-6")))
J(st_, e) ==
  LET i == e.in o == e.out IN
  C("Runs", e.exc = "") \o
  If(e.exc = "",
     LET A == TLCEval(Area(i.parts)) ks == {RRound(RMul("2", o.bins[n].key)) : n \in 1..Len(o.bins)} IN
     C("AnalysedBins", ks = Analysed(i.diam, i.measure) /\ Cardinality(ks) = Len(o.bins)) \o
     If(e.ev = "stored", C("TrialsKept", \A n \in 1..Len(o.bins) : \E m \in 1..Len(i.stored) : REq(i.stored[m].key, o.bins[n].key) /\ RSeqClose(o.bins[n].trials, i.stored[m].trials, "1e-12", "0"))) \o
     Flat([n \in 1..Len(o.bins) |-> Bin(i, A, o.bins[n])]))
=============================================================================
