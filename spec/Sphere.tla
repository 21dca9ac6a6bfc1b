------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* Geometry on the unit sphere.  Points are unit vectors; edges are great  *)
(* circle arcs.  A ring is a sequence of vertices without the closing one; *)
(* it may have any orientation and start anywhere but keeps within a       *)
(* hemisphere around its middle.  An area is a set of rings with           *)
(* hole = TRUE for those that are cut out: {[pts, hole]} as a sequence.    *)
(* Everything is derived from the signed solid angle of a triangle: a ring *)
(* is the sum of the signed triangles fanned from any fixed point, so the  *)
(* area of its part inside a convex piece is the sum of the clipped        *)
(* triangles, and a point is inside iff the signs of the triangles around  *)
(* it do not cancel.  No planar approximation, no star-shape assumption.   *)
(***************************************************************************)
EXTENDS Nums, SequencesExt
Pi == "3.141592653589793"
FourPi == RMul("4", Pi)

Nxt(q, i) == IF i = Len(q) THEN 1 ELSE i + 1
Dist(a, b) == VAngle(a, b)                                   \* great circle distance
RECURSIVE VSumN(_,_)
VSumN(q, i) == IF i = 1 THEN q[1] ELSE VAdd(VSumN(q, i-1), q[i])
Middle(pts) == VUnit(VSumN(pts, Len(pts)))
(* open ring: consecutive repetitions and the closing vertex dropped *)
Open(pts) == LET q == SelectSeq([i \in 1..Len(pts) |-> <<pts[i], pts[Nxt(pts, i)]>>], LAMBDA x : ~RNear(VAngle(x[1], x[2]), "0", "1e-13"))
             IN [i \in 1..Len(q) |-> q[i][1]]
Ring(lonlat) == Open([i \in 1..Len(lonlat) |-> VOf(lonlat[i][1], lonlat[i][2])])

(* signed fan of a ring about point c: sequence of <<sign, triangle>> with counterclockwise triangles *)
Fan(pts, c) == [i \in 1..Len(pts) |-> LET a == pts[i] b == pts[Nxt(pts, i)] t == VTri(c, a, b)
                                      IN IF RLt(t, "0") THEN [s |-> "-1", t |-> <<c, b, a>>, a |-> RNeg(t)] ELSE [s |-> "1", t |-> <<c, a, b>>, a |-> t]]
SumFan(f) == RSum([i \in 1..Len(f) |-> RMul(f[i].s, f[i].a)])
Signed(pts) == SumFan(Fan(pts, Middle(pts)))                 \* > 0 for counterclockwise rings
RingArea(pts) == RAbs(Signed(pts))
RingLength(pts) == RSum([i \in 1..Len(pts) |-> VAngle(pts[i], pts[Nxt(pts, i)])])
AreaOf(A) == RSum([k \in 1..Len(A) |-> IF A[k].hole THEN RNeg(RingArea(A[k].pts)) ELSE RingArea(A[k].pts)])
PerimeterOf(A) == RSum([k \in 1..Len(A) |-> RingLength(A[k].pts)])

(* convex piece cut down to the half space n.p >= 0 *)
Cut(piece, n) ==
  LET h == [i \in 1..Len(piece) |-> RDot(n, piece[i])]
      In(i) == RLe("0", h[i])
      part(i) == LET j == Nxt(piece, i) IN
        (IF In(i) THEN <<piece[i]>> ELSE <<>>) \o
        (IF In(i) # In(j) THEN <<VUnit(VAdd(VMul(RDiv(RAbs(h[j]), RAdd(RAbs(h[i]), RAbs(h[j]))), piece[i]),
                                            VMul(RDiv(RAbs(h[i]), RAdd(RAbs(h[i]), RAbs(h[j]))), piece[j])))>> ELSE <<>>)
  IN IF \A i \in 1..Len(piece) : In(i) THEN piece ELSE IF \A i \in 1..Len(piece) : ~In(i) THEN <<>> ELSE FlattenSeq([i \in 1..Len(piece) |-> part(i)])
RECURSIVE CutAll(_,_,_)
CutAll(piece, ns, k) == IF k > Len(ns) \/ piece = <<>> THEN piece ELSE CutAll(Cut(piece, ns[k]), ns, k+1)
ConvexArea(piece) == IF Len(piece) < 3 THEN "0" ELSE RSum([i \in 1..(Len(piece)-2) |-> VTri(piece[1], piece[i+1], piece[i+2])])

(* area of the part of A inside the convex region {p : n.p >= 0 for all n in ns} *)
Fans(A) == [k \in 1..Len(A) |-> LET f == Fan(A[k].pts, Middle(A[k].pts)) IN
              [f |-> f, s |-> IF A[k].hole = RLt(SumFan(f), "0") THEN "1" ELSE "-1"]]
PartOf(F, ns) == RSum([k \in 1..Len(F) |-> RMul(F[k].s, RSum([i \in 1..Len(F[k].f) |->
                   RMul(F[k].f[i].s, ConvexArea(CutAll(F[k].f[i].t, ns, 1)))]))])
(* inward normals of the edges of a convex counterclockwise ring *)
Normals(pts) == [i \in 1..Len(pts) |-> VUnit(VCross(pts[i], pts[Nxt(pts, i)]))]
Ccw(pts) == IF RLt(Signed(pts), "0") THEN Reverse(pts) ELSE pts
IsConvex(pts) == \A i \in 1..Len(pts) : LET j == Nxt(pts, i) k == Nxt(pts, j) IN RLt("0", VTriple(pts[i], pts[j], pts[k]))

(* a point is inside a ring iff the ring goes round it (and it is on the ring's side of the sphere) *)
Turn(p, a, b) == RAtan2(VTriple(p, a, b), RSub(RDot(a, b), RMul(RDot(a, p), RDot(b, p))))
InRing(pts, p) == RLt("0", RDot(Middle(pts), p)) /\ RLt("3", RAbs(RSum([i \in 1..Len(pts) |-> Turn(p, pts[i], pts[Nxt(pts, i)])])))
Inside(A, p) == RLt("0.5", RSum([k \in 1..Len(A) |-> IF InRing(A[k].pts, p) THEN (IF A[k].hole THEN "-1" ELSE "1") ELSE "0"]))
(* distance of p from the edges of A *)
EdgeDist(a, b, p) == LET n == VUnit(VCross(a, b)) IN
   IF RLe("0", VTriple(n, a, p)) /\ RLe("0", VTriple(b, n, p)) THEN RAbs(RSub(RDiv(Pi, "2"), VAngle(n, p))) ELSE RMin(VAngle(a, p), VAngle(b, p))
BoundaryDist(A, p) == RMinSeq([k \in 1..Len(A) |-> RMinSeq([i \in 1..Len(A[k].pts) |-> EdgeDist(A[k].pts[i], A[k].pts[Nxt(A[k].pts, i)], p)])])

(* radius of the small circle with the area a (unit sphere) *)
CapRadius(a) == RMul("2", RAsin(RSqrt(RDiv(a, FourPi))))
CapArea(r) == RMul(FourPi, RMul(RSin(RDiv(r, "2")), RSin(RDiv(r, "2"))))
(* share of a disc on the near side of a straight boundary at depth f of its diameter *)
ChordShare(f) == LET th == RMul("2", RAcos(RSub("1", RMul("2", f)))) IN RDiv(RSub(th, RSin(th)), RMul("2", Pi))

(* the part of A nearer to p[i] than to any other p[j] *)
Bisectors(p, i) == [k \in 1..(Len(p)-1) |-> LET j == IF k < i THEN k ELSE k + 1 IN VUnit(VAdd(p[i], VMul("-1", p[j])))]
CellArea(F, p, i) == PartOf(F, Bisectors(p, i))
=============================================================================
