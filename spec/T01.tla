-------------------------------- MODULE T01 --------------------------------
(* C01: recorded histograms of the real code against Binning *)
EXTENDS Verdict, Binning
J(s, e) ==
  LET i == e.in b == e.out IN
  C("Answered", e.exc = "" /\ IsRec(b)) \o
  If(e.exc = "" /\ IsRec(b),
     C("WellFormed", WellFormed(b)) \o
     If(WellFormed(b),
       IF i.style = "none"
       THEN C("OneEntryPerCrater", NB(b) = Len(i.diam) /\ SortedBy(b, i.diam, i.frac)) \o
            C("UnbinnedPairs", NB(b) = Len(i.diam) /\ PairsKept(b, i.diam, i.frac)) \o
            C("Cumulative", Cumul(b)) \o C("CumulativeEvents", CumulE(b))
       ELSE C("Contiguous", Contiguous(b)) \o
            C("OnPublishedGrid", Grid(i.style, b, i.offset)) \o
            C("CoversCraters", Covers(b, i.diam)) \o
            C("CountedInContainingBin", EventCount(b, i.diam)) \o
            C("NoneLostOrDoubled", NoneLost(b, i.diam)) \o
            C("FractionSums", Weighted(b, i.diam, i.frac)) \o
            C("BinWidths", Widths(b)) \o C("GeometricMeans", Means(b)) \o
            C("Cumulative", Cumul(b)) \o C("CumulativeEvents", CumulE(b))))
=============================================================================
