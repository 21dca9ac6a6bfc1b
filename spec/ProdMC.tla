------------------------------- MODULE ProdMC -------------------------------
(***************************************************************************)
(* Every published production and equilibrium function, walked in          *)
(* logarithmic diameter steps over its range, with isochron constants:     *)
(* the forms must be mutually consistent (derivative, R, Hartmann, shift). *)
(***************************************************************************)
EXTENDS Prod, Published, TLC
CONSTANT Steps
VARIABLES fn, tick, a0
vars == <<fn, tick, a0>>
Fns == ProdFns \o EquilFns
F == Fns[fn]
LogD(k) == LET r == FnRange(F) IN RAdd(RLog10(r[1]), RMul(RDiv(k, Steps), RSub(RLog10(r[2]), RLog10(r[1]))))
D(k) == RPow10(LogD(k))
Init == fn \in DOMAIN Fns /\ tick = 0 /\ a0 = "-3"
Larger == tick < Steps /\ tick' = tick + 1 /\ UNCHANGED <<fn, a0>>
Raise == a0 = "-3" /\ a0' = "-1.5" /\ UNCHANGED <<fn, tick>>
Next == Larger \/ Raise
Spec == Init /\ [][Next]_vars
V(p) == FnForm(F, p, a0, D(tick))
\* as published, one polynomial turns over at the very lower end of its stated range
Turning == F.name = "Vesta, Rev3, Schmedemann et al (2014)" /\ RLt(D(tick), "0.00415")
AllPositive == Turning \/ \A p \in CurvePresentations : RLt(0, V(p))
RConsistent == RClose(V("R-plot"), RMul(V("differential"), RPow(D(tick), 3)), "1e-9")
HConsistent == F.type = "polynomial" => RClose(V("Hartmann"), RMul(RMul(V("differential"), D(tick)), HalfWidth), "1e-12")
DerivativeOfCumulative == (F.type = "polynomial" /\ tick \in 1..(Steps-1)) =>
   LET e == RMul(D(tick), "1e-5")
       num == RDiv(RSub(FnForm(F, "cumulative", a0, RSub(D(tick), e)), FnForm(F, "cumulative", a0, RAdd(D(tick), e))), RMul(2, e))
   IN RClose(num, V("differential"), "1e-6")
UnitAt1km == F.type # "polynomial" => RClose(TabForm("cumulative", F.h, F.i1, a0, 1), RPow10(a0), "1e-12")
\* increments are differences of the cumulative form at the bin boundaries
IncrementsAddUp == (F.type # "polynomial" /\ tick < Len(F.h) - 1) =>
   LET x == TabX(F.h, F.i1) i == tick + 1 c(j) == TabForm("cumulative", F.h, F.i1, a0, RPow10(x[j])) IN
   RClose(RSub(c(i), c(i+1)), TabForm("Hartmann", F.h, F.i1, a0, RPow10(TabMeanX(F.h, F.i1)[i])), "1e-6")
CumulativeFalls == [][(tick' # tick /\ ~Turning) => RLe(FnForm(F, "cumulative", a0, D(tick')), FnForm(F, "cumulative", a0, D(tick)))]_vars
ShiftLaw == [][(a0' # a0) => \A p \in CurvePresentations :
   RClose(FnForm(F, p, a0', D(tick)), RMul(FnForm(F, p, a0, D(tick)), RPow10(RSub(a0', a0))), "1e-9")]_vars
=============================================================================
