-------------------------------- MODULE T23 --------------------------------
(* C23: areas, perimeters, diameters, centres and fractions read by the real code against the sphere *)
EXTENDS Survey
SameCount(o) == C("CountSame", REq(o.cc.area, o.area) /\ REq(o.cc.perimeter, o.perimeter) /\ SamePairs(Pairs(o.cc.diam, o.cc.frac), Pairs(o.diam, o.frac)))
J(st_, e) ==
  LET i == e.in IN
  CASE e.ev = "radii" -> C("RadiiRefused", e.exc # "")
    [] e.ev = "scc" -> (LET A == TLCEval(Boundary(Parsed(IF i.octool THEN StrReplace(i.text, "a-axis radius", "a_axis_radius") ELSE i.text))) IN
         C("GeneratorAgrees", Len(A) = i.n) \o C("Read", e.exc = "") \o If(e.exc = "", Measures(A, i.R, e.out, "1e-7")))
    [] e.ev = "shp" -> (LET A == TLCEval(Rings(i.parts)) tol == IF i.projected THEN "1e-5" ELSE "1e-6" IN
         C("Read", e.exc = "") \o If(e.exc = "", Measures(A, i.R, e.out, tol) \o CraterClauses(A, i.R, i, e.out, tol) \o SameCount(e.out)))
=============================================================================
