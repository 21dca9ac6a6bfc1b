----------------------------- MODULE IsochronMC -----------------------------
(* Every published production function with both published equilibrium     *)
(* functions, in every presentation, at growing age: older isochrons reach *)
(* equilibrium at larger diameters.                                        *)
EXTENDS Isochron, Published, TLC
CONSTANTS Grid, Ages
VARIABLES fn, ef, pres, age
vars == <<fn, ef, pres, age>>
F == ProdFns[fn]
E == EquilFns[ef]
Cp == ChronFns[1].p
GridOf(r) == RSpan(Grid, RLog10(r[1]), RLog10(r[2]))
Curve(f, a0) == LET g == GridOf(FnRange(f)) d == TLCEval([k \in 1..Grid |-> RPow10(g[k])])
                IN TLCEval([d |-> d, y |-> [k \in 1..Grid |-> FnForm(f, pres, a0, d[k])]])
Age(k) == RDiv(RMul(k, "4.5"), Ages)
Kept(k) == LET c == Curve(F, A0(Cp, Age(k))) e == Curve(E, OwnA0(E)) IN
           {i \in 1..Grid : HasEquil(e, c.d[i]) /\ Allowed(e, c.d[i], c.y[i])}
Init == fn \in DOMAIN ProdFns /\ ef \in DOMAIN EquilFns /\ pres \in {"cumulative", "differential", "R-plot", "Hartmann"} /\ age = 1
Grow == age < Ages /\ age' = age + 1 /\ UNCHANGED <<fn, ef, pres>>
Spec == Init /\ [][Grow]_vars
Shrinks == [][Kept(age') \subseteq Kept(age)]_vars
\* steeper than equilibrium: what remains is the large end
Special == F.name = "Vesta, Rev3, Schmedemann et al (2014)"
BelowEquilibrium == LET c == Curve(F, A0(Cp, Age(age))) e == Curve(E, OwnA0(E)) IN
   \A i \in Kept(age) : RLt(c.y[i], EquilAt(e, c.d[i]))
=============================================================================
