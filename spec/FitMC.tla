-------------------------------- MODULE FitMC -------------------------------
(***************************************************************************)
(* A count of Bins cumulative points: every point is perturbed by a factor *)
(* (error free = 1), then the data may be rescaled and resurfacing steps   *)
(* are taken.  Checks the properties of the fit used as oracle.            *)
(***************************************************************************)
EXTENDS Fit, TLC
CONSTANTS Bins
VARIABLES fac, scale, adj, steps
vars == <<fac, scale, adj, steps>>
Fn == [type |-> "polynomial", coef |-> <<"-3", "-3.2", "-0.1">>, range |-> <<>>, h |-> <<>>, i1 |-> 0]
TrueA0 == "-2.5"
D == [k \in 1..Bins |-> RPow(2, RDiv(k - 2, 2))]
Y == [k \in 1..Bins |-> RMul(RMul(FnForm(Fn, "cumulative", TrueA0, D[k]), fac[k]), scale)]
Err == [k \in 1..Bins |-> RDiv(Y[k], RSqrt(Bins + 2 - k))]
A0f == FitA0(Fn, "cumulative", D, Y, Err)
Init == fac \in [1..Bins -> {"0.5", "1", "1.5"}] /\ scale = "1" /\ adj = "0" /\ steps = 0
Rescale == scale = "1" /\ steps = 0 /\ scale' \in {"100", "0.01"} /\ UNCHANGED <<fac, adj, steps>>
Iter == steps < 6 /\ adj' = Step1(Fn, D, Y, adj) /\ steps' = steps + 1 /\ UNCHANGED <<fac, scale>>
Next == Rescale \/ Iter
Spec == Init /\ [][Next]_vars
Minimum == \A p \in {"cumulative", "differential"} :
   LET a == FitA0(Fn, p, D, Y, Err) c(x) == Cost(Fn, p, D, Y, Err, x) IN
   RLe(c(a), c(RAdd(a, "0.01"))) /\ RLe(c(a), c(RSub(a, "0.01"))) /\ RLe(c(a), c(RAdd(a, "1e-4")))
Recovers == (\A k \in 1..Bins : fac[k] = "1") => RNear(A0f, RAdd(TrueA0, RLog10(scale)), "1e-9")
ErrorsOrdered == RLt(LowerA0(A0f, Y, Err), A0f) /\ RLt(A0f, UpperA0(A0f, Y, Err))
ScaleLaw == [][(scale' # scale) => RNear(FitA0(Fn, "cumulative", D, Y', Err'), RAdd(A0f, RLog10(scale')), "1e-9")]_vars
\* the iteration contracts
Contracts == [][(steps' # steps /\ steps > 0) =>
     RLe(RAbs(RSub(Step1(Fn, D, Y, adj'), adj')), RAdd(RAbs(RSub(adj', adj)), "1e-12"))]_vars
\* its fixed point puts the last point on the fitted isochron
Agreement == steps = 6 =>
   LET y2 == Plus(Y, adj) n == Bins IN
   RClose(y2[n], FnForm(Fn, "cumulative", FitA0(Fn, "cumulative", D, y2, y2), D[n]), "0.02")
=============================================================================
