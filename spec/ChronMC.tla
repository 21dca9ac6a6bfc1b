------------------------------- MODULE ChronMC ------------------------------
(***************************************************************************)
(* Every published chronology on a time grid: a clock advances from 0 to   *)
(* 5 Ga; the crater density must grow, the rate must be its derivative and *)
(* the table lookup (1000 equidistant nodes, linear interpolation) must    *)
(* return the age within the second-derivative bound.                      *)
(***************************************************************************)
EXTENDS Chron, Published, TLC
CONSTANT Steps
VARIABLES fn, tick
vars == <<fn, tick>>
P == ChronFns[fn].p
T(k) == RDiv(RMul(k, 5), Steps)
Init == fn \in {j \in DOMAIN ChronFns : ChronFns[j].kind = "coeff"} /\ tick = 0
Advance == tick < Steps /\ tick' = tick + 1 /\ UNCHANGED fn
Spec == Init /\ [][Advance]_vars
Growing == [][RLt(N1(P, T(tick)), N1(P, T(tick')))]_vars
RatePositive == RLt(0, Phi(P, T(tick)))
\* central difference
RateIsDerivative == tick \in 1..(Steps-1) =>
   LET h == "1e-5" d == RDiv(RSub(N1(P, RAdd(T(tick), h)), N1(P, RSub(T(tick), h))), RMul(2, h))
   IN RClose(d, Phi(P, T(tick)), "1e-6")
\* lookup in the table of nodes k*5/999
Node(k) == RDiv(RMul(k, 5), 999)
Lookup(n) == LET k0 == RFloor(RDiv(RMul(T(tick), 999), 5)) k == IF k0 > 998 THEN 998 ELSE k0
                 a == N1(P, Node(k)) b == N1(P, Node(k+1))
             IN RAdd(Node(k), RMul(RSub(Node(k+1), Node(k)), RDiv(RSub(n, a), RSub(b, a))))
InverseError == RNear(Lookup(N1(P, T(tick))), T(tick), RMul("3.2e-6", P[2]))
=============================================================================
