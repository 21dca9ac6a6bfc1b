-------------------------------- MODULE Prod --------------------------------
(***************************************************************************)
(* Production functions: polynomial in log10 d with constant a0, and the   *)
(* forms derived from it; tabulated incremental root-2 functions.          *)
(***************************************************************************)
EXTENDS Nums
WithA0(coef, a0) == <<a0>> \o SubSeq(coef, 2, Len(coef))
C10(coef, a0, d) == RPoly(WithA0(coef, a0), RLog10(d))
Cum(coef, a0, d) == RPow10(C10(coef, a0, d))
\* derivative of the polynomial
Deriv(coef) == [i \in 1..(Len(coef)-1) |-> RMul(i, coef[i+1])]
Diff(coef, a0, d) == LET x == RLog10(d) IN
   RNeg(RDiv(RMul(Cum(coef, a0, d), RPoly(Deriv(coef), x)), d))
RForm(coef, a0, d) == RMul(Diff(coef, a0, d), RPow(d, 3))
HalfWidth == RSub(RPow(2, "0.25"), RPow(2, "-0.25"))     \* width of a root-2 bin in units of its mean diameter
HForm(coef, a0, d) == RMul(RMul(Diff(coef, a0, d), d), HalfWidth)
PolyForm(pres, coef, a0, d) == CASE pres = "cumulative"   -> Cum(coef, a0, d)
                             [] pres = "differential" -> Diff(coef, a0, d)
                             [] pres = "R-plot"       -> RForm(coef, a0, d)
                             [] pres = "Hartmann"     -> HForm(coef, a0, d)
Form(pres, coef, a0, d) == PolyForm(pres, coef, a0, d)

(* tabulated: h[i] craters in the i-th root-2 bin, i1 (from 0) the bin that starts at 1 km *)
TabX(h, i1)    == [i \in DOMAIN h |-> RMul(RDiv(RSub(i - 1, i1), 2), RLog10(2))]               \* log10 bin minimum
TabMeanX(h, i1) == [i \in DOMAIN h |-> RAdd(TabX(h, i1)[i], RMul("0.25", RLog10(2)))]
TabC10(h, i1)  == LET s == RSuffixSums(h) IN [i \in DOMAIN h |-> RSub(RLog10(s[i]), RLog10(s[i1+1]))]   \* zero at 1 km
\* increments of the normalised function: share of the bin in the cumulative number at 1 km
TabInc10(h, i1) == LET s == RSuffixSums(h) IN [i \in DOMAIN h |-> RSub(RLog10(h[i]), RLog10(s[i1+1]))]
TabBias(beta, k) == IF RLt(RAbs(k), "1e-5") THEN "1"
  ELSE RDiv(RSub(RPow(beta, RDiv(k, 2)), RPow(beta, RNeg(RDiv(k, 2)))), RMul(RSub(RSqrt(beta), RDiv(1, RSqrt(beta))), k))
\* logarithmic slope over a bin (the last bin continues the previous slope)
TabSlope(h, i1) == LET c == TabC10(h, i1) n == Len(h) S(i) == RDiv(RSub(c[i], c[i+1]), RLog10(RSqrt(2))) IN
  [i \in DOMAIN h |-> IF i = n THEN S(n-1) ELSE S(i)]
TabF10(h, i1) == LET inc == TabInc10(h, i1) x == TabMeanX(h, i1) k == TabSlope(h, i1) IN
  [i \in DOMAIN h |-> RSub(RSub(inc[i], x[i]), RLog10(RMul(HalfWidth, TabBias(RSqrt(2), k[i]))))]
TabForm(pres, h, i1, a0, d) == LET x == RLog10(d) IN
  CASE pres = "cumulative"   -> RPow10(RAdd(a0, RInterp(x, TabX(h, i1), TabC10(h, i1))))
    [] pres = "Hartmann"     -> RPow10(RAdd(a0, RInterp(x, TabMeanX(h, i1), TabInc10(h, i1))))
    [] pres = "differential" -> RPow10(RAdd(a0, RInterp(x, TabMeanX(h, i1), TabF10(h, i1))))
    [] pres = "R-plot"       -> RPow10(RAdd(a0, RInterp(x, TabMeanX(h, i1),
                                   [i \in DOMAIN h |-> RAdd(TabF10(h, i1)[i], RMul(3, TabMeanX(h, i1)[i]))])))
\* a function is [type, coef, h, i1]
FnForm(f, pres, a0, d) == IF f.type = "polynomial" THEN PolyForm(pres, f.coef, a0, d) ELSE TabForm(pres, f.h, f.i1, a0, d)
OwnA0(f) == IF f.type = "polynomial" THEN f.coef[1] ELSE "0"
FnRange(f) == IF f.type = "polynomial" THEN (IF Len(f.range) = 2 THEN f.range ELSE <<"1e-4", "2e3">>)
              ELSE <<RPow10(TabMeanX(f.h, f.i1)[1]), RPow10(TabMeanX(f.h, f.i1)[Len(f.h)])>>
Clamp(x, r) == RMin(RMax(x, r[1]), r[2])
CurvePresentations == {"cumulative", "differential", "R-plot", "Hartmann"}
=============================================================================
