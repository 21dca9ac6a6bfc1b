--------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Isochron fit: weighted least squares of the constant of the function in *)
(* log density; resurfacing correction as a fixed-point iteration.         *)
(* Data are sequences d, y, err; fn is a production function record.       *)
(***************************************************************************)
EXTENDS Prod
Shape(fn, pres, d) == [k \in DOMAIN d |-> RLog10(FnForm(fn, pres, "0", d[k]))]
Weight(pres, y, err) == IF pres = "cumulative" THEN y ELSE err      \* sigma = 1/sqrt(weight)
Resid(fn, pres, d, y) == LET f == Shape(fn, pres, d) IN [k \in DOMAIN d |-> RSub(RLog10(y[k]), f[k])]
FitA0(fn, pres, d, y, err) ==
  LET w == Weight(pres, y, err) IN RDiv(RDot(w, Resid(fn, pres, d, y)), RSum(w))
Cost(fn, pres, d, y, err, a) ==
  LET w == Weight(pres, y, err) r == Resid(fn, pres, d, y) IN RDot(w, [k \in DOMAIN d |-> RPow(RSub(r[k], a), 2)])
\* error of the constant from the first point's error bar
LowerA0(a, y, err) == RSub(a, RSub(RLog10(y[1]), RLog10(RMax(RSub(y[1], RMul("0.98", err[1])), RMul("0.02", y[1])))))   \* a corrected value may be smaller than its error
UpperA0(a, y, err) == RSub(a, RSub(RLog10(y[1]), RLog10(RAdd(y[1], RMul("0.98", err[1])))))
\* resurfacing: one step of the iteration, and its result
Plus(y, c) == [k \in DOMAIN y |-> RAdd(y[k], c)]
Step1(fn, d, y, adj) == LET n == Len(d) IN
   RSub(FnForm(fn, "cumulative", FitA0(fn, "cumulative", d, Plus(y, adj), y), d[n]), y[n])
RECURSIVE Iterate(_,_,_,_,_)
Iterate(fn, d, y, adj, count) ==
   LET nx == Step1(fn, d, y, adj) IN
   IF RLt(RAbs(RSub(adj, nx)), "1e-4") \/ count + 1 > 20 THEN nx ELSE Iterate(fn, d, y, nx, count + 1)
ResurfAdj(fn, d, y) == IF Len(d) <= 1 THEN "0" ELSE Iterate(fn, d, y, "0", 0)
=============================================================================
