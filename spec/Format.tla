------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Printed numbers.  Texts are decimal numerals; a text t shows value v to *)
(* n figures iff ShowsFigs(t, v, n).  Ages, densities, diameter ranges and *)
(* percentiles are composed of such numerals with units.                   *)
(***************************************************************************)
EXTENDS Nums, FiniteSets
DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
\* plain numeral: optional sign, digits, optional point followed by digits, no exponent, no superfluous leading zero
Plain(t) ==
  LET c == StrChars(t) neg == Len(c) > 0 /\ c[1] = "-"
      b == IF neg THEN SubSeq(c, 2, Len(c)) ELSE c
      pts == {k \in DOMAIN b : b[k] = "."} IN
  /\ Len(b) > 0
  /\ \A k \in DOMAIN b : b[k] \in DigitChars \cup {"."}
  /\ Cardinality(pts) <= 1
  /\ b[1] \in DigitChars /\ b[Len(b)] \in DigitChars
  /\ (Len(b) > 1 /\ b[1] = "0") => b[2] = "."
Digits(t) == SelectSeq(StrChars(t), LAMBDA x : x \in DigitChars)
RECURSIVE StripZeros(_)
StripZeros(q) == IF Len(q) = 0 THEN q ELSE IF q[1] = "0" THEN StripZeros(Tail(q)) ELSE q
Figures(t) == Len(StripZeros(Digits(t)))
Decimals(t) == LET c == StrChars(t) pts == {k \in DOMAIN c : c[k] = "."} IN
   IF pts = {} THEN 0 ELSE Len(c) - (CHOOSE k \in pts : TRUE)

ShowsFigs(t, v, n) ==
  /\ Plain(t)
  /\ DRounded(t, v, n)
  /\ (REq(t, 0) \/ RLe(RPow10(n), RAbs(t)) \/ Figures(t) = n)
  /\ (RLt(v, 0) /\ ~REq(t, 0)) => RLt(t, 0)

\* ages: Ga, Ma, ka or a
UnitOf(age) == IF RLe(1, age) THEN "Ga" ELSE IF RLe("0.001", age) THEN "Ma" ELSE IF RLe("0.000001", age) THEN "ka" ELSE "a"
PerGa(u) == CASE u = "Ga" -> "1" [] u = "Ma" -> "1000" [] u = "ka" -> "1000000" [] u = "a" -> "1000000000"
In(x, u) == DMul(x, PerGa(u))
\* the value is given in unit u with sf figures, both errors in the same unit with one figure fewer
AgeShown(k, age, e1, e2, sf, u, errors) ==
  /\ ShowsFigs(k.v, In(age, u), sf)
  /\ IF errors THEN ShowsFigs(k.up, In(e1, u), sf - 1) /\ ShowsFigs(k.dn, In(e2, u), sf - 1)
     ELSE k.up = "" /\ k.dn = ""
Latex(k) == k.v \o (IF k.up = "" THEN "" ELSE "^{+" \o k.up \o "}_{-" \o k.dn \o "}")
Mathml(k) == IF k.up = "" THEN k.v ELSE "<msubsup><mtext>" \o k.v \o "</mtext><mtext>&#x2212;" \o k.dn \o "</mtext><mtext>+" \o k.up \o "</mtext></msubsup>"
MathHead == "<math xmlns='http://www.w3.org/1998/Math/MathML'>"
AgeLatex(k, mu, u) == "$" \o (IF mu THEN "{mu}" ELSE "") \o Latex(k) \o "$ " \o u
AgeMathml(k, mu, u) == MathHead \o (IF mu THEN "<mi>&#956;</mi>" ELSE "") \o Mathml(k) \o "<mtext>&#8239;" \o u \o "</mtext></math>"

\* densities: plain between 0.01 and 10000, otherwise mantissa and power of ten; errors at the same power
PlainDensity(v) == REq(v, 0) \/ (RLt("0.01", RAbs(v)) /\ RLt(RAbs(v), 10000))
Borderline(v) == RClose(RAbs(v), "0.01", "1e-9") \/ RClose(RAbs(v), 10000, "1e-9")
DensityShown(k, v, e1, e2, sf, force, errors) ==
  LET usePlain == PlainDensity(v) /\ ~force
      at(x) == DMul(x, DPow10(-k.exp)) IN
  /\ Borderline(v) \/ REq(v, 0) \/ (k.exp # 0 => ~usePlain)
  /\ (~usePlain /\ ~Borderline(v) /\ ~REq(v, 0)) => LET m == RAbs(k.v) IN RLe(1, m) /\ RLt(m, 10)
  /\ ShowsFigs(k.v, at(v), sf)
  /\ IF errors THEN ShowsFigs(k.up, at(RSub(e1, v)), sf - 1) /\ ShowsFigs(k.dn, at(RSub(v, e2)), sf - 1)
     ELSE k.up = "" /\ k.dn = ""
Power(n) == IF n = 0 THEN "" ELSE "\\cdot10^{" \o StrOfInt(n) \o "}"
UnitLatex(u) == CASE u = "" -> "" [] u = "km-2" -> "$ km$^{-2}" [] u = "km2" -> "$ km$^{2}"
UnitMathml(u) == CASE u = "" -> "" [] u = "km-2" -> "<msup><mtext>&#8239;km</mtext><mtext>-2</mtext></msup>"
                                  [] u = "km2" -> "<msup><mtext>&#8239;km</mtext><mtext>2</mtext></msup>"
DensityLatex(k, u) == "$" \o Latex(k) \o Power(k.exp) \o UnitLatex(u) \o "$"
DensityMathml(k, u) == MathHead \o Mathml(k) \o (IF k.exp = 0 THEN "" ELSE "<mo>&#183;</mo><msup><mtext>10</mtext><mtext>" \o StrOfInt(k.exp) \o "</mtext></msup>")
                       \o UnitMathml(u) \o "</math>"

\* diameter ranges, in m when the upper end is below 1 km
RangeShown(t, lo, hi, sf) ==
  IF hi = "inf" THEN t = "unconstrained"
  ELSE LET km == RLe(1, hi) p == StrSplit(t, "{en}") IN
       /\ Len(p) = 2
       /\ LET q == StrSplit(p[2], " ") f == IF km THEN "1" ELSE "1000" IN
          /\ Len(q) = 2 /\ q[2] = (IF km THEN "km" ELSE "m")
          /\ ShowsFigs(p[1], DMul(lo, f), sf) /\ ShowsFigs(q[1], DMul(hi, f), sf)

\* percentiles: below 50 two figures; above, as many decimals as the complement would show
PercentShown(t, p, tc) ==
  IF RLt(p, 50) THEN DRounded(t, p, 2) /\ (RLe("0.0001", p) => Plain(t))
  ELSE /\ Plain(t) /\ Decimals(t) = Decimals(tc)
       /\ RLe(DAbs(DSub(t, p)), DMul("0.5000001", DPow10(-Decimals(t))))
-----------------------------------------------------------------------------
(* reference printer, in integers: m * 10^x to n figures (halves up) *)
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
RECURSIVE NDig(_)
NDig(m) == IF m < 10 THEN 1 ELSE 1 + NDig(m \div 10)
Rounded(m, n) ==       \* [r, e]: n-digit integer and exponent shift
  LET D == NDig(m) IN
  IF D > n THEN LET c == P10(D - n) r == (m + c \div 2) \div c IN
       IF r = P10(n) THEN [r |-> P10(n - 1), e |-> D - n + 1] ELSE [r |-> r, e |-> D - n]
  ELSE [r |-> m * P10(n - D), e |-> D - n]
RECURSIVE Rep(_)
Rep(k) == IF k <= 0 THEN "" ELSE "0" \o Rep(k - 1)
RefPrint(m, x, n) ==
  LET q == Rounded(m, n) e == q.e + x d == StrOfInt(q.r) c == StrChars(d) IN
  IF e >= 0 THEN d \o Rep(e)
  ELSE IF -e < n THEN StrJoin(SubSeq(c, 1, n + e), "") \o "." \o StrJoin(SubSeq(c, n + e + 1, n), "")
  ELSE "0." \o Rep(-e - n) \o d
=============================================================================
