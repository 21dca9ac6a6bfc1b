----------------------------- MODULE SequenceMC -----------------------------
(* Two surfaces are surveyed: craters are found on either, areas differ.   *)
(* The closed form of the sequence probability must be the probability of  *)
(* the race (first-step recurrence) and be coherent.                       *)
EXTENDS Sequence
CONSTANTS MaxK
VARIABLES k1, k2, u1, u2
vars == <<k1, k2, u1, u2>>
Rates == {"1", "3", "0.2"}
P == POlder(k1, u1, k2, u2)
Init == k1 = 0 /\ k2 = 0 /\ u1 \in Rates /\ u2 \in Rates
Find1 == k1 < MaxK /\ k1' = k1 + 1 /\ UNCHANGED <<k2, u1, u2>>
Find2 == k2 < MaxK /\ k2' = k2 + 1 /\ UNCHANGED <<k1, u1, u2>>
Next == Find1 \/ Find2
Spec == Init /\ [][Next]_vars
Probability == RLt(0, P) /\ RLt(P, 1)
Complement == RNear(RAdd(P, POlder(k2, u2, k1, u1)), 1, "1e-10")
Half == (k1 = k2 /\ u1 = u2) => RNear(P, "0.5", "1e-10")
\* first step of the race
q1 == RDiv(u1, RAdd(u1, u2))
RaceStep == RNear(P, RAdd(RMul(q1, IF k1 = 0 THEN "0" ELSE POlder(k1-1, u1, k2, u2)),
                          RMul(RSub(1, q1), IF k2 = 0 THEN "1" ELSE POlder(k1, u1, k2-1, u2))), "1e-10")
MoreIsOlder == [][(k1' > k1 => RLt(P, POlder(k1', u1, k2, u2))) /\ (k2' > k2 => RLt(POlder(k1, u1, k2', u2), P))]_vars
=============================================================================
