------------------------------- MODULE PlotMC ------------------------------
(***************************************************************************)
(* Design of point selection: walk over the bins from large to small       *)
(* (cumulative numbers accumulate whether or not a bin is in the range),   *)
(* emitting a point for each occupied bin whose mean lies in the range.    *)
(* Bin i has minimum 2i, mean 2i+1, maximum 2i+2.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxCount
VARIABLES h, r, i, cum, pts, total
vars == <<h, r, i, cum, pts, total>>
Init == /\ h \in [1..N -> 0..MaxCount] /\ r \in {<<a, b>> \in (0..2*N+3) \X (0..2*N+3) : a <= b}
        /\ i = N /\ cum = 0 /\ pts = <<>> /\ total = 0
Visit == /\ i >= 1
         /\ cum' = cum + h[i]
         /\ LET sel == h[i] > 0 /\ r[1] < 2*i+1 /\ 2*i+1 < r[2] IN
            /\ pts' = IF sel THEN <<[bin |-> i, y |-> cum + h[i]]>> \o pts ELSE pts
            /\ total' = IF sel THEN total + h[i] ELSE total
         /\ i' = i - 1 /\ UNCHANGED <<h, r>>
Spec == Init /\ [][Visit]_vars
RECURSIVE Sum(_,_)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Sel == {k \in 1..N : h[k] > 0 /\ r[1] < 2*k+1 /\ 2*k+1 < r[2]}
Exactly == i = 0 => {pts[k].bin : k \in DOMAIN pts} = Sel /\ Len(pts) = Cardinality(Sel)
Ascending == \A k \in 1..(Len(pts)-1) : pts[k].bin < pts[k+1].bin /\ pts[k].y > pts[k+1].y
CumIsAllLarger == \A k \in DOMAIN pts : pts[k].y = Sum(h, pts[k].bin..N)
Totals == i = 0 => total = Sum(h, Sel)
=============================================================================
