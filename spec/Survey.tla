------------------------------- MODULE Survey -------------------------------
(***************************************************************************)
(* A spatial crater count against the sphere: the counting area a text     *)
(* gives, the measures derived from it, and what becomes of every crater   *)
(* outline (kept whole, cut by the boundary, dropped).  Used by C14, C23.  *)
(***************************************************************************)
EXTENDS Verdict, Sphere, Reader
Rings(parts) == FlattenSeq([k \in 1..Len(parts) |-> <<[pts |-> Ring(parts[k].shell), hole |-> FALSE]>> \o
                   [j \in 1..Len(parts[k].holes) |-> [pts |-> Ring(parts[k].holes[j]), hole |-> TRUE]]])
\* the counting area a text gives: the rows of one sub_area in their order are a ring
Boundary(es) ==
  LET b == One(es, "unit_boundary") s == Col(b, "sub_area") t == Col(b, "tag") x == Numbers(Col(b, "lon")) y == Numbers(Col(b, "lat"))
      firsts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : \A j \in 1..(i-1) : s[j] # s[i])
      rows(i) == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j] = s[i])
  IN [k \in 1..Len(firsts) |-> LET q == TLCEval(rows(firsts[k])) IN [pts |-> Ring([j \in 1..Len(q) |-> <<x[q[j]], y[q[j]]>>]), hole |-> t[firsts[k]] = "int"]]
Sq(x) == RMul(x, x)
Measures(A, R, o, tol) ==
  C("Area", RClose(o.area, RMul(Sq(R), AreaOf(A)), tol)) \o C("Perimeter", RClose(o.perimeter, RMul(R, PerimeterOf(A)), tol)) \o C("Radius", RClose(o.radius, R, "1e-9"))
\* true centroid of a ring, as a direction
RECURSIVE VTotal(_,_)
VTotal(q, i) == IF i = 0 THEN <<"0", "0", "0">> ELSE VAdd(VTotal(q, i-1), q[i])
Centre(pts) ==
  LET p == Ccw(pts) m == Middle(p) n == Len(p) far == RMaxSeq([i \in 1..n |-> VAngle(m, p[i])])
      neg(v) == VMul("-1", v)
      k(i) == LET t == VAngle(p[i], p[Nxt(p, i)]) IN RDiv(t, RSin(t))
      term(i) == LET a == p[i] b == p[Nxt(p, i)] kk == k(i) IN            \* k a x b, less m x (b - a) which add up to nothing
        VAdd(VMul(kk, VCross(VAdd(a, neg(m)), VAdd(b, neg(m)))), VCross(m, VMul(RSub(kk, "1"), VAdd(b, neg(a)))))
      flat(i) == LET a == p[i] b == p[Nxt(p, i)] IN VMul(VTri(m, a, b), VAdd(VAdd(a, neg(m)), VAdd(b, neg(m))))
  IN IF RLt(far, "1e-3") THEN VUnit(VAdd(m, VMul(RDiv("1", RMul("3", RingArea(p))), VTotal([i \in 1..n |-> flat(i)], n))))
     ELSE VUnit(VTotal([i \in 1..n |-> term(i)], n))
Fate(A, F, q) ==
  LET own == RingArea(q.pts) near == BoundaryDist(A, q.c) in == Inside(A, q.c) IN
  IF RLt(RMul("1.02", q.r), near) THEN [k |-> IF in THEN "inside" ELSE "outside", f |-> IF in THEN "1" ELSE "0"]
  ELSE LET sh == RDiv(PartOf(F, Normals(Ccw(q.pts))), own) IN
       IF RLt(sh, "-1e-6") \/ RLt("1.000001", sh) THEN [k |-> "error", f |-> sh]
       ELSE IF RLt("0.002", sh) /\ RLt(sh, "0.998") THEN [k |-> "cut", f |-> sh] ELSE IF RLt("1e-9", sh) /\ RLt(sh, "0.999999999") THEN [k |-> "tangent", f |-> sh]
       ELSE [k |-> IF RLt("0.5", sh) THEN "mostly" ELSE "tangent", f |-> sh]
CratersWithin(A, R, i, o, tol, ftol) ==
  LET F == TLCEval(Fans(A))
      q == TLCEval([k \in 1..Len(i.craters) |-> LET pts == Ring(i.craters[k].ring) IN [pts |-> pts, c |-> Centre(pts), r |-> RMaxSeq([j \in 1..Len(pts) |-> VAngle(Middle(pts), pts[j])])]])
      fate == TLCEval([k \in 1..Len(q) |-> Fate(A, F, q[k])])
      ov == TLCEval([m \in 1..Len(o.diam) |-> VOf(o.lon[m], o.lat[m])])
      d == TLCEval([k \in 1..Len(q) |-> RMul(R, RMul("2", CapRadius(RingArea(q[k].pts))))])
      sees(k) == {m \in 1..Len(ov) : RLe(VAngle(ov[m], q[k].c), RAdd(RMul("1e-4", q[k].r), "1e-11")) /\ RClose(o.diam[m], d[k], "1e-3")}
      hit == TLCEval([k \in 1..Len(q) |-> sees(k)])
      val(k) == CHOOSE m \in hit[k] : TRUE
      one(k) == Cardinality(hit[k]) = 1
  IN C("EachOnce", \A k \in 1..Len(q) : Cardinality(hit[k]) <= 1) \o C("NothingElse", Len(o.diam) = Cardinality({k \in 1..Len(q) : hit[k] # {}})) \o
     C("SameLengths", Len(o.frac) = Len(o.diam) /\ Len(o.lon) = Len(o.diam) /\ Len(o.lat) = Len(o.diam)) \o
     Flat([k \in 1..Len(q) |->
        If(one(k), C("Diameter", RClose(o.diam[val(k)], d[k], tol)) \o C("Centre", RLe(VAngle(ov[val(k)], q[k].c), RAdd(RMul("1e-5", q[k].r), "1e-11"))) \o
           If(i.craters[k].regular, LET t == RMul(R, RMul("2", i.craters[k].rad)) n == i.craters[k].n IN
              C("TrueDiameter", RLe(o.diam[val(k)], RMul(t, "1.000001")) /\ RLe(RMul(t, RSub("1", RDiv("3.5", RNum(n * n)))), o.diam[val(k)])))) \o
        (CASE fate[k].k = "inside" -> C("WhollyInside", one(k) /\ REq(o.frac[val(k)], "1"))
           [] fate[k].k = "mostly" -> C("NearlyInside", one(k) /\ RLe("0.99", o.frac[val(k)]) /\ RLe(o.frac[val(k)], "1"))
           [] fate[k].k = "outside" -> C("OutsideDropped", hit[k] = {})
           [] fate[k].k = "cut" -> C("CutFraction", one(k) /\ RLt("0", o.frac[val(k)]) /\ RLe(o.frac[val(k)], "1") /\ RNear(ChordShare(o.frac[val(k)]), fate[k].f, ftol))
           [] fate[k].k = "error" -> C("SpecShare", FALSE)
           [] OTHER -> C("Tangent", hit[k] = {} \/ (RLe("0", o.frac[val(k)]) /\ RLe(o.frac[val(k)], "1"))))])
CraterClauses(A, R, i, o, tol) == CratersWithin(A, R, i, o, tol, "0.0006")
=============================================================================
