------------------------------ MODULE Isochron ------------------------------
(***************************************************************************)
(* Isochron curves: the production function at the constant of an age,     *)
(* cut off where it reaches 0.8 of the equilibrium function.               *)
(* A curve is [d, y]; the equilibrium curve is compared at its last grid   *)
(* point below the diameter.                                               *)
(***************************************************************************)
EXTENDS Prod, Chron
Below(e, d) == RCountIn(e.d, "-inf", d)          \* number of grid points below d
HasEquil(e, d) == Below(e, d) >= 1
EquilAt(e, d) == e.y[Below(e, d)]
Allowed(e, d, y) == RLt(y, RMul("0.8", EquilAt(e, d)))
Borderline(e, d, y) == RClose(y, RMul("0.8", EquilAt(e, d)), "1e-6")
\* a list entry is [age, suffix]; age "None" when the text is not a number
Valid(entries) == SelectSeq(entries, LAMBDA x : x.age # "None")
SufHas(x, c) == \E k \in DOMAIN x.suffix : x.suffix[k] = c
Hidden(x) == SufHas(x, "h") \/ SufHas(x, "n")
=============================================================================
