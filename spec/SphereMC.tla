------------------------------ MODULE SphereMC ------------------------------
(* Rings of an icosphere-like lattice: a ring is walked vertex by vertex; its area, length, membership and parts obey the
   laws of area on the sphere whatever its orientation or starting vertex. *)
EXTENDS Sphere, FiniteSets
CONSTANTS Lons, Lats, Lon0, Lat0, MaxLen
VARIABLES ring, done, pts          \* pts: the closed ring on the sphere
vars == <<ring, done, pts>>
V(g) == VOf(RAdd(Lon0, RNum(g[1])), RAdd(Lat0, RNum(g[2])))
Grid == {<<x, y>> : x \in Lons, y \in Lats}
(* lattice ring in the plane of indices: simple iff no two edges cross *)
Orient(a, b, c) == LET d == (b[1]-a[1])*(c[2]-a[2]) - (b[2]-a[2])*(c[1]-a[1]) IN IF d > 0 THEN 1 ELSE IF d < 0 THEN 0-1 ELSE 0
Cross(a, b, c, d) == Orient(a,b,c) # Orient(a,b,d) /\ Orient(c,d,a) # Orient(c,d,b)
On(a, b, c) == Orient(a,b,c) = 0 /\ (c[1]-a[1])*(c[1]-b[1]) <= 0 /\ (c[2]-a[2])*(c[2]-b[2]) <= 0
OkEdge(q, c) == \A i \in 1..(Len(q)-1) : LET a == q[i] b == q[i+1] IN
    IF b = q[Len(q)] THEN ~On(a, b, c) /\ ~On(b, c, a) ELSE ~Cross(a, b, q[Len(q)], c) /\ ~On(a, b, c) /\ ~On(q[Len(q)], c, a) /\ ~On(q[Len(q)], c, b)
OkClose(q) == LET z == q[Len(q)] s == q[1] IN
    /\ \A i \in 2..(Len(q)-2) : ~Cross(q[i], q[i+1], z, s) /\ ~On(z, s, q[i]) /\ ~On(z, s, q[i+1])
    /\ ~On(q[1], q[2], z) /\ ~On(z, s, q[2]) /\ ~On(z, s, q[Len(q)-1]) /\ ~On(q[Len(q)-1], z, s)
Init == \E g \in Grid : ring = <<g>> /\ done = FALSE /\ pts = <<>>
Extend == ~done /\ Len(ring) < MaxLen /\ \E g \in Grid : (\A i \in 1..Len(ring) : ring[i] # g) /\ OkEdge(ring, g) /\ ring' = Append(ring, g) /\ UNCHANGED <<done, pts>>
Close == ~done /\ Len(ring) > 2 /\ OkClose(ring) /\ done' = TRUE /\ pts' = [i \in 1..Len(ring) |-> V(ring[i])] /\ UNCHANGED ring
Next == Extend \/ Close
Spec == Init /\ [][Next]_vars
A0 == <<[pts |-> pts, hole |-> FALSE]>>
Rot(q) == Tail(q) \o <<Head(q)>>
(* lattice area by index (twice the planar area) and boundary/interior points *)
Twice == LET t[i \in 1..Len(ring)] == LET a == ring[i] b == ring[Nxt(ring, i)] IN a[1]*b[2] - b[1]*a[2] + (IF i = 1 THEN 0 ELSE t[i-1]) IN t[Len(ring)]
AreaIndependent == done => LET a == RingArea(pts) IN
   /\ RClose(RingArea(Rot(pts)), a, "1e-12") /\ RClose(RingArea(Reverse(pts)), a, "1e-12")
   /\ RLt("0", Signed(pts)) = (Twice > 0)
   /\ RClose(SumFan(Fan(pts, pts[1])), Signed(pts), "1e-12")
   /\ RClose(SumFan(Fan(pts, V(<<5, 0-3>>))), Signed(pts), "1e-11")
(* about the equator a ring of small cells has nearly its planar area *)
NearlyPlanar == (done /\ Lat0 = "-1") => RClose(RingArea(pts), RMul(RDiv(RNum(IF Twice > 0 THEN Twice ELSE 0 - Twice), "2"), RMul(RDiv(Pi, "180"), RDiv(Pi, "180"))), "2e-3")
HalfPlanes == {VCross(V(<<0, 0>>), V(<<3, 1>>)), VCross(V(<<2, 0>>), V(<<1, 2>>)), VCross(V(<<0, 2>>), V(<<3, 1>>))}
PartsAddUp == done => LET F == Fans(A0) a == RingArea(pts) IN
   /\ \A n \in HalfPlanes : RClose(RAdd(PartOf(F, <<n>>), PartOf(F, <<VMul("-1", n)>>)), a, "1e-10")
   /\ \A n, m \in HalfPlanes : n # m => RClose(RSum(<<PartOf(F, <<n, m>>), PartOf(F, <<n, VMul("-1", m)>>), PartOf(F, <<VMul("-1", n), m>>), PartOf(F, <<VMul("-1", n), VMul("-1", m)>>)>>), a, "1e-10")
   /\ RClose(PartOf(F, <<>>), a, "1e-12")
CellsAddUp == done => LET F == TLCEval(Fans(A0)) p == <<V(<<0, 1>>), V(<<3, 0>>), V(<<2, 2>>), VOf("40", "50"), VOf("-100", "-20")>> IN
   RClose(RSum([i \in 1..Len(p) |-> CellArea(F, p, i)]), RingArea(pts), "1e-10")
(* membership against the planar lattice (cells of 1 degree at half-integer points off all lattice lines of small slope) *)
Probe == {<<2 * x + 1, 2 * y + 1>> : x \in {-1, 0, 1, 2, 3}, y \in {-1, 0, 1, 2}}
ProbeV(h) == VOf(RAdd(Lon0, RAdd(RDiv(RNum(h[1]), "2"), "0.013")), RAdd(Lat0, RAdd(RDiv(RNum(h[2]), "2"), "0.007")))
(* part of the ring within a small triangle about the probe is either all or nothing of it, in step with membership *)
Small(v) == LET e == "0.0001" IN Ccw(<<VUnit(VAdd(v, <<e, "0", "0">>)), VUnit(VAdd(v, <<"0", e, "0">>)), VUnit(VAdd(v, <<"0", "0", e>>))>>)
MembershipIsArea == done => LET F == TLCEval(Fans(A0)) IN \A h \in Probe : LET v == ProbeV(h) t == TLCEval(Small(v)) w == PartOf(F, Normals(t)) full == RingArea(t) IN
   RLt("0.0003", BoundaryDist(A0, v)) => RNear(w, IF Inside(A0, v) THEN full ELSE "0", "1e-13")
(* a ring cut out of a larger one leaves the difference *)
Frame == <<V(<<0-20, 0-20>>), V(<<24, 0-20>>), V(<<24, 24>>), V(<<0-20, 24>>)>>
HoleSubtracts == done => LET A == <<[pts |-> Frame, hole |-> FALSE], [pts |-> pts, hole |-> TRUE]>> F == TLCEval(Fans(A)) IN
   /\ RClose(AreaOf(A), RSub(RingArea(Frame), RingArea(pts)), "1e-12") /\ RClose(PartOf(F, <<>>), AreaOf(A), "1e-12")
   /\ RClose(PerimeterOf(A), RAdd(RingLength(Frame), RingLength(pts)), "1e-12")
   /\ \A h \in Probe : (RLt("1e-6", BoundaryDist(A0, ProbeV(h)))) => (Inside(A, ProbeV(h)) = ~Inside(A0, ProbeV(h)))
Octant == RClose(RingArea(<<VOf("0", "0"), VOf("90", "0"), VOf("0", "90")>>), RDiv(Pi, "2"), "1e-14")
Chord == RClose(ChordShare("0.5"), "0.5", "1e-14") /\ REq(ChordShare("0"), "0") /\ RClose(ChordShare("1"), "1", "1e-14") /\ RClose(ChordShare("0.25"), "0.195501109477885", "1e-9") /\ RClose(CapRadius(CapArea("0.37")), "0.37", "1e-14") /\ RClose(CapArea(RDiv(Pi, "2")), RMul("2", Pi), "1e-14")
ASSUME Octant /\ Chord
=============================================================================
