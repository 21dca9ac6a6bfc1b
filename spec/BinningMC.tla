----------------------------- MODULE BinningMC -----------------------------
(***************************************************************************)
(* Design of the binning: positions are integers (fine units), bin         *)
(* boundaries at multiples of W.  The range of bins is selected from the   *)
(* logarithms of the extreme diameters, which carry a rounding error of at *)
(* most Noise; Guard is subtracted at the lower end, Eps added at the      *)
(* upper.  Then the craters are dropped one at a time into the bins.       *)
(* The action Generate is the code's generate_bins, Drop one crater's      *)
(* histogram step.  Also enumerates the boundary scenarios that are driven *)
(* through the real code.                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
CONSTANTS W, MaxPos, MaxCraters, Noise, Guard, Eps
VARIABLES phase, craters, pending, lo, hi, hist
vars == <<phase, craters, pending, lo, hi, hist>>
Pos == 0..MaxPos
Ids == 1..MaxCraters
FloorDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)

Init == /\ phase = "load" /\ craters = <<>> /\ pending = {} /\ lo = 0 /\ hi = 0 /\ hist = <<>>
Load == /\ phase = "load" /\ Len(craters) < MaxCraters
        /\ \E p \in Pos : (Len(craters) > 0 => p >= craters[Len(craters)]) /\ craters' = Append(craters, p)
        /\ UNCHANGED <<phase, pending, lo, hi, hist>>
\* lowest boundary at or below (min - Guard + noise), first boundary above (max + Eps + noise)
Generate == /\ phase = "load" /\ Len(craters) > 0
            /\ \E n1, n2 \in -Noise..Noise :
                 /\ lo' = FloorDiv(craters[1] - Guard + n1, W)
                 /\ hi' = FloorDiv(craters[Len(craters)] + Eps + n2, W) + 1
            /\ hist' = [b \in lo'..(hi'-1) |-> 0]
            /\ pending' = 1..Len(craters) /\ phase' = "count" /\ UNCHANGED craters
Drop == /\ phase = "count"
        /\ \E c \in pending :
             LET b == FloorDiv(craters[c], W) IN
             /\ pending' = pending \ {c}
             /\ hist' = IF b \in DOMAIN hist THEN [hist EXCEPT ![b] = @ + 1] ELSE hist
        /\ UNCHANGED <<phase, craters, lo, hi>>
Next == Load \/ Generate \/ Drop
Spec == Init /\ [][Next]_vars

RECURSIVE SumF(_,_)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Conserved == phase = "count" => SumF(hist, DOMAIN hist) + Cardinality(pending) = Len(craters)
Covered   == phase = "count" => lo * W <= craters[1] /\ craters[Len(craters)] < hi * W
InItsBin  == (phase = "count" /\ pending = {}) =>
               \A b \in DOMAIN hist : hist[b] = Cardinality({c \in 1..Len(craters) : b * W <= craters[c] /\ craters[c] < (b+1) * W})
Contained == phase = "count" => \A c \in 1..Len(craters) : Cardinality({b \in DOMAIN hist : b * W <= craters[c] /\ craters[c] < (b+1) * W}) = 1
=============================================================================
