------------------------------ MODULE Binning ------------------------------
(***************************************************************************)
(* Histogram of a crater count: the published boundary grids and what the  *)
(* columns of a binned count mean.  Used by C01, C02, C03, C04, C14.       *)
(***************************************************************************)
EXTENDS Nums

Styles == {"pseudo-log", "20/decade", "10/decade", "x2", "root-2", "4th root-2", "none"}
Mantissa == <<"1","1.1","1.2","1.3","1.4","1.5","1.7","2","2.5","3","3.5","4","4.5","5","6","7","8","9">>
NM == Len(Mantissa)

\* bins per unit of log10 (logarithmic grids)
PerDecade(s) == CASE s = "x2"         -> RDiv(1, RLog10(2))
                  [] s = "root-2"     -> RDiv(2, RLog10(2))
                  [] s = "4th root-2" -> RDiv(4, RLog10(2))
                  [] s = "10/decade"  -> "10"
                  [] s = "20/decade"  -> "20"

\* k-th boundary of a grid (any integer k); offset shifts a logarithmic grid down by that fraction of a bin
Edge(s, k, offset) ==
  IF s = "pseudo-log"
  THEN LET m == k % NM IN RMul(Mantissa[m+1], RPow10((k - m) \div NM))
  ELSE RPow10(RDiv(RSub(k, offset), PerDecade(s)))

\* index of the boundary nearest to x
EdgeIndex(s, x, offset) ==
  IF s = "pseudo-log"
  THEN LET l == RFloor(RAdd(RLog10(x), "1e-9"))
           f == RDiv(x, RPow10(l))
           m == CHOOSE i \in 1..NM : /\ RClose(f, Mantissa[i], "1e-6") \/ RLt(Mantissa[i], f)
                                     /\ (i = NM \/ ~(RClose(f, Mantissa[i+1], "1e-6") \/ RLt(Mantissa[i+1], f)))
       IN l * NM + (m - 1)
  ELSE RRound(RAdd(RMul(RLog10(x), PerDecade(s)), offset))

OnGrid(s, x, offset) == RClose(x, Edge(s, EdgeIndex(s, x, offset), offset), "1e-9")

\* the boundary at or below x / strictly above x on the exact grid (x itself counted as on a boundary within 1e-9)
EdgeBelow(s, x, offset) == LET k == EdgeIndex(s, x, offset)
                               e == Edge(s, k, offset)
                           IN IF RLe(e, x) \/ RClose(e, x, "1e-9") THEN k ELSE k - 1
-----------------------------------------------------------------------------
(* b: record of the histogram columns; diam, frac: the craters *)
Cols == {"d_min","d_max","bin_width","d_mean","n","n_event","ncum","ncum_event"}
WellFormed(b) == /\ Cols \subseteq DOMAIN b
                 /\ \A c \in Cols : IsSeq(b[c]) /\ Len(b[c]) = Len(b["d_min"])
                 /\ Len(b["d_min"]) > 0
NB(b) == Len(b["d_min"])

Contiguous(b) == \A i \in 1..(NB(b)-1) : REq(b.d_max[i], b.d_min[i+1]) /\ RLt(b.d_min[i], b.d_max[i])
Grid(s, b, offset) ==
  /\ \A i \in 1..NB(b) : OnGrid(s, b.d_min[i], offset) /\ OnGrid(s, b.d_max[i], offset)
  /\ \A i \in 1..NB(b) : EdgeIndex(s, b.d_max[i], offset) = EdgeIndex(s, b.d_min[i], offset) + 1
Covers(b, diam)   == RLe(b.d_min[1], RMinSeq(diam)) /\ RLt(RMaxSeq(diam), b.d_max[NB(b)])
EventCount(b, diam) == \A i \in 1..NB(b) : REq(b.n_event[i], RCountIn(diam, b.d_min[i], b.d_max[i]))
NoneLost(b, diam)   == REq(RSum(b.n_event), Len(diam))
Weighted(b, diam, frac) == \A i \in 1..NB(b) : RNear(b.n[i], RSumIn(diam, frac, b.d_min[i], b.d_max[i]), "1e-9")
Widths(b)  == \A i \in 1..NB(b) : RNear(b.bin_width[i], RSub(b.d_max[i], b.d_min[i]), RMul("1e-12", b.d_max[i]))
Means(b)   == \A i \in 1..NB(b) : RClose(b.d_mean[i], RSqrt(RMul(b.d_min[i], b.d_max[i])), "1e-12")
Cumul(b)   == RSeqClose(b.ncum, RSuffixSums(b.n), "1e-9", "1e-9")
CumulE(b)  == RSeqClose(b.ncum_event, RSuffixSums(b.n_event), "0", "0")

\* unbinned: one entry of zero width per crater, ascending, with the crater's own fraction
SortedBy(b, diam, frac) ==
  /\ RSeqClose(b.d_min, RSort(diam), "0", "0") /\ RSeqClose(b.d_max, b.d_min, "0", "0") /\ RSeqClose(b.d_mean, b.d_min, "0", "0")
  /\ \A i \in 1..NB(b) : REq(b.bin_width[i], 0) /\ REq(b.n_event[i], 1)
\* the entries are the (diameter, fraction) pairs of the craters as a multiset
PairsKept(b, diam, frac) ==
  \A i \in 1..Len(diam) :
    LET in(j)  == REq(diam[j], diam[i]) /\ REq(frac[j], frac[i])
        out(j) == REq(b.d_min[j], diam[i]) /\ REq(b.n[j], frac[i])
    IN Len(SelectSeq([j \in 1..Len(diam) |-> j], in)) = Len(SelectSeq([j \in 1..NB(b) |-> j], out))
=============================================================================
