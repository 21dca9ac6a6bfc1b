------------------------------ MODULE FormatMC ------------------------------
(* The reference printer satisfies the display relation, is monotone and idempotent; unit choice is exact. *)
EXTENDS Format, TLC
CONSTANTS MMax, Exps, Figs
VARIABLES m, x, n, last
vars == <<m, x, n, last>>
E1 == -6..5
E2 == -9..7
Init == m = 1 /\ x \in Exps /\ n \in Figs /\ last = "0"
Next == m < MMax /\ m' = m + 1 /\ last' = RefPrint(m, x, n) /\ UNCHANGED <<x, n>>
Spec == Init /\ [][Next]_vars
Val == DMul(m, DPow10(x))
Shown == ShowsFigs(RefPrint(m, x, n), Val, n)
Monotone == DCmp(last, RefPrint(m, x, n)) <= 0
Idempotent == ShowsFigs(RefPrint(m, x, n), RefPrint(m, x, n), n)
\* a wrong last figure or a lost figure is not accepted
Sharp == LET t == RefPrint(m, x, n) q == Rounded(m, n) IN
   /\ ~ShowsFigs(DMul(q.r + 1, DPow10(q.e + x)), Val, n) \/ (2 * m * P10(IF q.e < 0 THEN -q.e ELSE 0)) = (2 * q.r + 1) * P10(IF q.e > 0 THEN q.e ELSE 0)
   /\ (q.e + x < 0) => ~ShowsFigs(t \o "0", Val, n)
UnitExact == LET u == UnitOf(Val) IN u = "a" \/ (RLe(1, In(Val, u)) /\ (u # "Ga" => RLt(In(Val, u), 1000)))
=============================================================================
