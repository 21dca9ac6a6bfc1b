------------------------------ MODULE TimePlot ------------------------------
(***************************************************************************)
(* Plots against time: the sequence plot on its (possibly split) time axis,*)
(* chronology and rate curves, epochs.                                     *)
(* A split axis is linear from tmax to the crossover and logarithmic from  *)
(* there to tmin; the linear part takes the fraction w of the width.       *)
(***************************************************************************)
EXTENDS Prod, Chron
Fraction(ax, t) == IF ax.log THEN RDiv(RLn(RDiv(ax.t0, t)), RLn(RDiv(ax.t0, ax.t1))) ELSE RDiv(RSub(ax.t0, t), RSub(ax.t0, ax.t1))
\* an axis [x0, x1, t0, t1, log] shows time t at this position
At(ax, t) == RAdd(ax.x0, RMul(RSub(ax.x1, ax.x0), Fraction(ax, t)))
OnAxis(ax, t) == RLe(t, ax.t0) /\ RLe(ax.t1, t)
\* the axes of a time plot leave no time out, show none twice, and age grows to the left
Joined(axes) ==
  /\ \A a \in DOMAIN axes : RLt(axes[a].t1, axes[a].t0) /\ RLt(axes[a].x0, axes[a].x1)
  /\ \A a \in 1..(Len(axes)-1) : RNear(axes[a].x1, axes[a+1].x0, "1e-6") /\ RClose(axes[a].t1, axes[a+1].t0, "1e-9")
Spans(axes, lo, hi) == RClose(axes[1].t0, hi, "1e-9") /\ RLe(axes[Len(axes)].t1, lo)
\* limits: the oldest time is kept between 3 and 4.5 Ga; a youngest time below 1 Ga (not 0) is rounded down to a decade and splits the axis
TMax(r) == RMin(RMax(RMaxSeq(r), 3), "4.5")
TMin(r) == RMin(RMax(RMinSeq(r), 0), RSub(TMax(r), "0.1"))
Split(r) == RLt(0, TMin(r)) /\ RLt(TMin(r), 1)
\* the k-th of n elements from the top
Height(k, n) == RDiv(n - k + 1, n + 1)
HalfBand(n) == RDiv("0.5", n + 1)
\* label of an epoch: its initials (of the last word, after that of the first in lower case)
Initials(name) == LET p == StrSplit(StrReplace(name, "-", " "), " ") IN
   IF Len(p) = 2 THEN StrLower(StrChars(p[1])[1]) \o StrChars(p[2])[1] ELSE StrChars(p[1])[1]
\* epoch k (from 1, youngest first) lasts from time[k] to time[k+1], or to the end of the axis
EpochEnd(time, k, last) == IF k < Len(time) THEN time[k+1] ELSE last
\* curve of the chronology (cumulative density of craters of d km and more) or of the rate of formation
Curve(p, rate, ratio, t) == RMul(ratio, IF rate THEN Phi(p, t) ELSE N1(p, t))
Ratio(f, d) == RDiv(FnForm(f, "cumulative", OwnA0(f), d), FnForm(f, "cumulative", OwnA0(f), 1))
=============================================================================
