--------------------------------- MODULE Age --------------------------------
(***************************************************************************)
(* Poisson age of k craters on an area: lambda(t) is the number expected   *)
(* in the diameter range at age t; with the rate weighting, lambda has the *)
(* Gamma(k+1) distribution, so the cumulative probability of age t is      *)
(* 1 - Q(k+1, lambda(t)).                                                  *)
(***************************************************************************)
EXTENDS Chron, Prod, TLC
Lambda(coef, p, t, lo, hi, area) ==
  LET a == A0(p, t) IN RMul(area, RSub(Cum(coef, a, lo), Cum(coef, a, hi)))

\* buffered counts: craters whose centre is within one radius of the area also count
NS == 801
Simpson == TLCEval([i \in 1..NS |-> IF i = 1 \/ i = NS THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2])
LambdaBuffered1(coef, lo, hi, area, perim) ==        \* for a0 = 0
  LET ls == RSpan(NS, RLn(lo), RLn(hi))
      y  == TLCEval([i \in 1..NS |-> LET d == RExp(ls[i]) IN
              RMul(RMul(d, Diff(coef, 0, d)),
                   RAdd(RAdd(area, RMul(d, RDiv(perim, 2))), RMul(RMul(d, d), RDiv("3.141592653589793", 4))))])
  IN RMul(RDot(Simpson, y), RDiv(RSub(RLn(hi), RLn(lo)), 3 * (NS - 1)))

\* P(age <= t)
CumProb(k, lam) == RSub(1, RGammaQ(RAdd(k, 1), lam))
\* gaussian percentiles of the reported values: median, lower, upper
Percentile == <<"0.5", "0.15865525393145707", "0.8413447460685429">>
=============================================================================
