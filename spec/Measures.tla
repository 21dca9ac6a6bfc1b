------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* Randomness measures of a set of crater positions p (unit vectors) and   *)
(* the score of a measured value against its trials.                       *)
(***************************************************************************)
EXTENDS Sphere
(* distance to the second nearest of the others *)
Dists(p, i) == RSort([k \in 1..(Len(p)-1) |-> VAngle(p[i], p[IF k < i THEN k ELSE k + 1])])
Second(p, i) == Dists(p, i)[2]
M2cnd(p) == RMean([i \in 1..Len(p) |-> Second(p, i)])
Cells(F, p) == [i \in 1..Len(p) |-> CellArea(F, p, i)]
Least(measure) == IF measure = "m2cnd" THEN 3 ELSE 4
(* score of a value v against trials t *)
Mean(t) == RMean(t)
Sd(t) == RStd(t)
Score(v, t) == RDiv(RSub(v, Mean(t)), Sd(t))
Percentile(v, t) == RDiv(RMul("100", RNum(Cardinality({i \in 1..Len(t) : RLt(t[i], v)}))), RNum(Len(t)))
(* size bins of the analysis: half-integer powers of two *)
BinOf(d) == RFloor(RMul("2", RDiv(RLog10(d), RLog10("2"))))
Members(ds, k) == SelectSeq([i \in 1..Len(ds) |-> i], LAMBDA i : BinOf(ds[i]) = k)
Analysed(ds, measure) == {k \in {BinOf(ds[i]) : i \in 1..Len(ds)} : Len(Members(ds, k)) >= Least(measure)}
BinKey(k) == RDiv(RNum(k), "2")
=============================================================================
