----------------------------- MODULE TimePlotMC -----------------------------
(* Time plots: every range of ages gets axes that show each of its ages exactly once, age growing to the left; overplots
   are placed one below the other in disjoint bands; every epoch of the axis gets its name inside its own time. *)
EXTENDS TimePlot, FiniteSets, TLC
CONSTANTS MaxPlots, Careless
Limits == {"0", "0.0003", "0.02", "0.5", "1", "2.2", "3.5", "4.2", "4.5", "5"}
Times == {"0.0005", "0.01", "0.3", "0.999", "1", "1.7", "2.9999", "3", "3.0001", "3.3", "3.9", "4.4"}
EpochLists == {<<"0", "1.1", "3.2", "3.8", "3.85", "3.92">>, <<"0", "0.05", "0.4", "2.5", "3.1">>, <<"0", "2.9", "3.05">>, <<"0", "0.0001", "4.3">>}
VARIABLES range, plots, axes, placed, names
vars == <<range, plots, axes, placed, names>>
Decade(t) == RPow10(RFloor(RLog10(t)))
\* the axes of a range (w: width of the linear part of a split axis)
Axes(r, w) == LET hi == TMax(r) lo == TMin(r) IN
  IF ~Split(r) THEN <<[x0 |-> "0", x1 |-> "1", t0 |-> hi, t1 |-> lo, log |-> FALSE]>>
  ELSE IF RLe(hi, 3) THEN <<[x0 |-> "0", x1 |-> "1", t0 |-> "3", t1 |-> Decade(lo), log |-> TRUE]>>
  ELSE <<[x0 |-> "0", x1 |-> w, t0 |-> hi, t1 |-> "3", log |-> FALSE], [x0 |-> w, x1 |-> "1", t0 |-> "3", t1 |-> Decade(lo), log |-> TRUE]>>
Init == /\ range \in {<<a, b>> : a \in Limits, b \in Limits} /\ RLt(RMinSeq(range), RMaxSeq(range))
        /\ plots \in UNION {[1..n -> {"shown", "hidden"}] : n \in 0..MaxPlots}
        /\ axes = <<>> /\ placed = <<>> /\ names = <<>>
Layout == axes = <<>> /\ \E w \in {"0.3", "0.5"} : axes' = Axes(range, w) /\ UNCHANGED <<range, plots, placed, names>>
Shown == SelectSeq([k \in DOMAIN plots |-> k], LAMBDA k : plots[k] = "shown")
Rank(k) == Cardinality({j \in 1..k : Careless \/ plots[j] = "shown"})
Place == /\ axes # <<>> /\ Len(placed) < Len(Shown)
         /\ placed' = Append(placed, Height(Rank(Shown[Len(placed) + 1]), Len(Shown)))
         /\ UNCHANGED <<range, plots, axes, names>>
Young == axes[Len(axes)].t1
Old == axes[1].t0
\* names: in the middle of the part of the epoch between the ends of the axis; geometric middle on the logarithmic part
Middle(ax, a, b) == IF ax.log THEN RSqrt(RMul(a, b)) ELSE RDiv(RAdd(a, b), 2)
Name == /\ axes # <<>> /\ Len(placed) = Len(Shown) /\ names = <<>> /\ plots = <<>>
        /\ \E e \in EpochLists :
             names' = <<e, {[epoch |-> k, axis |-> a, t |-> Middle(axes[a], RMax(e[k], Young), RMin(Old, EpochEnd(e, k, Old)))] :
                              k \in {k \in DOMAIN e : RLt(RMax(e[k], Young), RMin(Old, EpochEnd(e, k, Old)))}, a \in DOMAIN axes}>>
        /\ UNCHANGED <<range, plots, axes, placed>>
Next == Layout \/ Place \/ Name
Spec == Init /\ [][Next]_vars
AxesJoined == axes # <<>> => Joined(axes) /\ Spans(axes, TMin(range), TMax(range))
OnceShown == axes # <<>> => \A t \in Times : (RLe(t, Old) /\ RLe(Young, t)) =>
   LET q == {At(axes[a], t) : a \in {a \in DOMAIN axes : OnAxis(axes[a], t)}} IN
   q # {} /\ \A x, y \in q : RNear(x, y, "1e-9") /\ RLe("-1e-9", x) /\ RLe(x, "1.000000001")
OlderLeft == axes # <<>> => \A t, u \in Times : \A a, b \in DOMAIN axes : (RLt(t, u) /\ OnAxis(axes[a], t) /\ OnAxis(axes[b], u)) => RLt(At(axes[b], u), At(axes[a], t))
Ordered == LET n == Len(Shown) h == HalfBand(n) IN
   /\ \A k \in DOMAIN placed : RLe(h, placed[k]) /\ RLe(RAdd(placed[k], h), 1)
   /\ \A k \in 1..(Len(placed)-1) : RLe(RAdd(placed[k+1], RMul("1.999999", h)), placed[k])
NamesInside == names # <<>> => \A x \in names[2] : RLe(names[1][x.epoch], x.t) /\ RLe(x.t, EpochEnd(names[1], x.epoch, Old))
EveryEpochNamed == names # <<>> => \A k \in {x.epoch : x \in names[2]} : \E x \in names[2] : x.epoch = k /\ OnAxis(axes[x.axis], x.t)
=============================================================================
