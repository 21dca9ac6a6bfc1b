-------------------------------- MODULE T06 --------------------------------
(* C06: chronology functions of the real code against Chron and Published *)
EXTENDS Verdict, Chron, Published
PubP(name) == ChronFns[CHOOSE j \in DOMAIN ChronFns : ChronFns[j].name = name].p
P(i) == IF i.published THEN PubP(i.name) ELSE i.p
Sys(name) == Systems[CHOOSE j \in DOMAIN Systems : Systems[j].name = name]
\* interpolation accuracy of the inverse: chord of a 5/999 Ga step
InvTol(p, t) == RAdd("1e-9", RMul("3.3e-6", RDiv(RMul(RMul(p[1], RMul(p[2], p[2])), RExp(RMul(p[2], RMin(5, RAdd(t, "0.006"))))), Phi(p, t))))
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "system" ->
           C("SystemParts", o.cf = Sys(i.name).cf /\ o.pf = Sys(i.name).pf)
      [] e.ev = "listed" ->
           C("SystemsListed", \A j \in DOMAIN Systems : \E k \in DOMAIN o.systems : o.systems[k] = Systems[j].name)
      [] e.ev = "point" ->
           LET p == P(i) IN
           C("DensityFormula", \A k \in DOMAIN i.t : RClose(o.n1[k], N1(p, i.t[k]), "1e-10") \/ RNear(o.n1[k], N1(p, i.t[k]), "1e-25")) \o
           C("RateIsDerivative", \A k \in DOMAIN i.t : RClose(o.phi[k], Phi(p, i.t[k]), "1e-12")) \o
           C("LogDensity", \A k \in DOMAIN i.t : REq(i.t[k], 0) \/ RNear(o.a0[k], A0(p, i.t[k]), "1e-9")) \o
           C("Increasing", RIsStrictlyAscending(o.n1)) \o
           C("InverseOfDensity", \A k \in DOMAIN i.t : RNear(o.tn[k], RMin(i.t[k], 5), InvTol(p, i.t[k]))) \o
           C("InverseOfLog", \A k \in DOMAIN i.t : RNear(o.ta[k], RMin(i.t[k], 5), InvTol(p, i.t[k]))) \o
           C("InverseMonotone", RIsAscending(o.tn)) \o
           C("BeyondModel", RNear(o.beyond, 5, "1e-9")) \o
           C("ScalarAsVector", RSeqClose(o.scalar, o.n1, "1e-12", "0"))
      [] e.ev = "curve" ->
           LET p == P(i) n == Len(o.t) IN
           C("CurveSamples", n >= 100 /\ Len(o.y) = n /\ \A k \in 1..n : RClose(o.y[k], IF i.phi THEN Phi(p, o.t[k]) ELSE N1(p, o.t[k]), "1e-9") \/ RNear(o.t[k], 0, "1e-6")) \o
           C("CurveSpan", RIsStrictlyAscending(o.t) /\ RNear(o.t[n], 5, "1e-9") /\
                          (IF i.linear THEN RNear(o.t[1], 0, "1e-9") ELSE RLe(o.t[1], "1.0001e-9") /\ RLt(0, o.t[1]))))
=============================================================================
