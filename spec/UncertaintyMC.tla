--------------------------- MODULE UncertaintyMC ---------------------------
(* The map is filled column by column: every column holds an age that lies within one column of its place on the axis, ages
   ascend strictly from tmin to tmax; a count of more craters is older and (where the chronology is linear) less uncertain;
   the shaded region is the union of the two limits. *)
EXTENDS Uncertainty, FiniteSets
CONSTANTS Cols, Careless
P == <<"5.44e-14", "6.93", "0", "8.38e-4">>
Cases == {[tmin |-> m, tmax |-> x, w |-> w] : m \in {"0.00001", "0.001", "0.1"}, x \in {"3.2", "3.6", "4.5"}, w \in {"0.15", "0.318", "0.5"}}
         \union {[tmin |-> m, tmax |-> x, w |-> "1"] : m \in {"1", "0", "2"}, x \in {"3", "4.5"}}
VARIABLES g, n, col, k, ages
vars == <<g, n, col, k, ages>>
TC == IF g.w = "1" THEN g.tmin ELSE "3"
Axes == IF g.w = "1" THEN <<[x0 |-> "0", x1 |-> "1", t0 |-> g.tmax, t1 |-> g.tmin, log |-> FALSE]>>
        ELSE <<[x0 |-> "0", x1 |-> g.w, t0 |-> g.tmax, t1 |-> TC, log |-> FALSE], [x0 |-> g.w, x1 |-> "1", t0 |-> TC, t1 |-> g.tmin, log |-> TRUE]>>
Init == g \in Cases /\ n \in Cols /\ col = 0 /\ k = -1 /\ ages = <<>>
Fill == col < n /\ col' = col + 1 /\ ages' = Append(ages, GridAge(n, IF Careless /\ g.w # "1" THEN "0.6" ELSE g.w, g.tmin, TC, g.tmax, col + 1)) /\ UNCHANGED <<g, n, k>>
Count == col = n /\ k < 10 /\ g = [tmin |-> "0.1", tmax |-> "4.5", w |-> "0.318"] /\ n = (CHOOSE c \in Cols : TRUE) /\ k' = k + 1 /\ UNCHANGED <<g, n, col, ages>>
Next == Fill \/ Count
Spec == Init /\ [][Next]_vars
\* column c from the left is the (n+1-c)-th age
InPlace == col = n => \A c \in 1..n : LET t == ages[n + 1 - c] x == CHOOSE x \in {At(Axes[a], t) : a \in {a \in DOMAIN Axes : OnAxis(Axes[a], t)}} : TRUE IN
   RLe(RDiv(c - 2, n), RAdd(x, "1e-9")) /\ RLe(x, RDiv(c + 1, n)) /\ RClose(AgeAt(Axes, x), t, "1e-9")
Ascending == \A c \in 1..(Len(ages)-1) : RLt(ages[c], ages[c+1])
Ends == col = n => RClose(ages[n], IF LinCols(n, g.w) = 0 THEN TC ELSE g.tmax, "1e-9") /\ RLe(g.tmin, ages[1])
L1 == "5000"
Med(kk) == MeasuredAge(P, L1, kk, "0.5")
Wide(kk) == Spread(MeasuredAge(P, L1, kk, Sigma.lower), MeasuredAge(P, L1, kk, Sigma.upper))
MoreIsOlder == k > 0 => RLt(Med(k-1), Med(k)) /\ RLt(Wide(k), Wide(k-1)) /\ RClose(Med(k), RDiv(RAdd(k, "0.6667"), RMul(L1, "8.38e-4")), "0.06")
Moments == k >= 0 => LET lam == RPow(2, k - 5) t == Tail8(lam) IN RLe(E8(t), RMul("1.000001", lam)) /\ RLe(0, V8(t)) /\ RLe(V8(t), RMul("1.000001", lam)) /\ (RLt(lam, 1) => RClose(E8(t), lam, "1e-4") /\ RClose(V8(t), lam, "1e-3"))
Corner == <<<<"0","0">>, <<"0.3","0">>, <<"0.3","0.7">>, <<"1","0.7">>, <<"1","1">>, <<"0","1">>>>
Union == col = n => \A c \in 1..n : LET x == RDiv(RSub(c, "0.43"), n) IN Inside(Corner, x, "0.41") = RLt(x, "0.3") /\ Inside(Corner, x, "0.87")
=============================================================================
