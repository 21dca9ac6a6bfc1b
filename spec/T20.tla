-------------------------------- MODULE T20 --------------------------------
(* C20: simulated crater configurations of the real code against the counting area they are drawn in *)
EXTENDS Verdict, Sphere
Rings(parts) == FlattenSeq([k \in 1..Len(parts) |-> <<[pts |-> Ring(parts[k].shell), hole |-> FALSE]>> \o
                   [j \in 1..Len(parts[k].holes) |-> [pts |-> Ring(parts[k].holes[j]), hole |-> TRUE]]])
InArea(A, p) == Inside(A, p) \/ RLe(BoundaryDist(A, p), "1e-9")
\* quadrants between two planes
Quads(a, b) == << <<a, b>>, <<VMul("-1", a), b>>, <<VMul("-1", a), VMul("-1", b)>>, <<a, VMul("-1", b)>> >>
InHalf(ns, p) == \A k \in 1..Len(ns) : RLe("0", RDot(ns[k], p))
\* number of n independent points falling in a share s of the area: 5.5 standard deviations and a little for small shares
Expected(n, k, s) == RLe(RAbs(RSub(RNum(k), RMul(RNum(n), s))), RAdd("3", RMul("5.5", RSqrt(RMul(RNum(n), RMul(RMax(s, "0"), RMax(RSub("1", s), "0")))))))
Spread(A, i, v) ==
  LET F == TLCEval(Fans(A)) total == TLCEval(AreaOf(A)) n == Len(v) IN
  Flat([m \in 1..Len(i.planes) |->
     LET a == VUnit(i.planes[m][1]) b == VUnit(i.planes[m][2]) q == TLCEval(Quads(a, b))
         share == TLCEval([k \in 1..4 |-> RDiv(PartOf(F, q[k]), total)]) IN
     C("SpecShares", RClose(RSum(share), "1", "1e-6")) \o
     Flat([k \in 1..4 |-> C("Uniform", Expected(n, Cardinality({x \in 1..n : InHalf(q[k], v[x])}), share[k]))])])
\* shapes drawn in the area (parts, outlines moved inwards, small convex pieces): same test
InPiece(ns, p) == InHalf(ns, p)
Pieces(A, i, v) ==
  LET F == TLCEval(Fans(A)) total == TLCEval(AreaOf(A)) n == Len(v) IN
  Flat([m \in 1..Len(i.pieces) |->
     LET ns == TLCEval(Normals(Ccw(Ring(i.pieces[m])))) IN
     C("UniformPieces", Expected(n, Cardinality({x \in 1..n : InPiece(ns, v[x])}), RDiv(PartOf(F, ns), total)))])
J(st_, e) ==
  LET i == e.in IN
  C("Simulated", e.exc = "") \o If(e.exc = "", LET A == TLCEval(Rings(i.parts)) o == e.out IN
    Flat([k \in 1..Len(o.configs) |->
      LET v == TLCEval([x \in 1..Len(o.configs[k]) |-> VOf(o.configs[k][x][1], o.configs[k][x][2])]) n == Len(v) IN
      C("ExactNumber", n = i.n) \o C("InsideArea", \A x \in 1..n : InArea(A, v[x])) \o
      If(e.ev = "config", C("Separated", \A x \in 1..n : \A y \in 1..(x-1) : RLt(RMul(RDiv(i.diam, RMul("2", i.R)), "0.9999999"), VAngle(v[x], v[y])))) \o
      If(e.ev = "spread", Spread(A, i, v) \o Pieces(A, i, v))]) \o
    If(Len(o.configs) > 1 /\ i.n > 0, C("ConfigurationsDiffer", \A k \in 1..Len(o.configs) : \A m \in 1..(k-1) : o.configs[k] # o.configs[m])))
=============================================================================
