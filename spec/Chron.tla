-------------------------------- MODULE Chron -------------------------------
(* Chronology functions: N(1 km) at age t [Ga] and impact rate, from the published coefficients p[1..4] *)
EXTENDS Nums
N1(p, t)  == RAdd(RMul(p[1], RSub(RExp(RMul(p[2], t)), 1)), RMul(p[4], t))
Phi(p, t) == RAdd(RMul(RMul(p[2], p[1]), RExp(RMul(p[2], t))), p[4])
A0(p, t)  == RLog10(N1(p, t))
=============================================================================
