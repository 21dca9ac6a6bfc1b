-------------------------------- MODULE AgeMC -------------------------------
(***************************************************************************)
(* Age as a function of the history of a survey: craters are found one by  *)
(* one (inside or outside the range), the area is extended.  The median    *)
(* age index is derived from the Gamma law on a grid of expectations.      *)
(* Checks that the law used as oracle has the stated monotonicity.         *)
(***************************************************************************)
EXTENDS Nums, FiniteSets
CONSTANTS MaxK, Grid
VARIABLES k, other, area
vars == <<k, other, area>>
\* median: smallest grid index g with P(Gamma(k+1) <= area * g/Grid) >= 1/2
Cdf(kk, a, g) == RSub(1, RGammaQ(kk + 1, RDiv(RMul(a, g), Grid)))
Median(kk, a) == CHOOSE g \in 1..(Grid * (MaxK + 3)) : RLe("0.5", Cdf(kk, a, g)) /\ (g = 1 \/ RLt(Cdf(kk, a, g-1), "0.5"))
Init == k = 0 /\ other = 0 /\ area = 1
Find == k < MaxK /\ k' = k + 1 /\ UNCHANGED <<other, area>>
FindOutside == other < 2 /\ other' = other + 1 /\ UNCHANGED <<k, area>>
Extend == area < 3 /\ area' = area + 1 /\ UNCHANGED <<k, other>>
Next == Find \/ FindOutside \/ Extend
Spec == Init /\ [][Next]_vars
MedianExists == \E g \in 1..(Grid * (MaxK + 3)) : RLe("0.5", Cdf(k, area, g))
FoundIsOlder == [][(k' = k + 1) => Median(k', area) > Median(k, area)]_vars
LargerIsYounger == [][(area' = area + 1) => Median(k, area') < Median(k, area)]_vars
OutsideIrrelevant == [][(other' # other) => Median(k', area') = Median(k, area)]_vars
=============================================================================
