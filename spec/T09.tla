-------------------------------- MODULE T09 --------------------------------
(* C09: counts read by the real code against what Reader says the file text means *)
EXTENDS Verdict, Reader
Refused(e) == e.exc = "SystemExit" /\ e.msg \notin {"", "None", "0"}
List(s, e) ==
  LET o == e.out IN
  C("Pairs", SamePairs(Pairs(o.diam, o.frac), Pairs(s.diam, s.frac))) \o
  C("Area", RClose(o.area, s.area, "1e-12")) \o
  C("Perimeter", IF s.perimeter = "" THEN o.perimeter = "None" ELSE IsStr(o.perimeter) /\ o.perimeter # "None" /\ RClose(o.perimeter, s.perimeter, "1e-12")) \o
  C("Buffered", o.buffered = s.buffered) \o C("NotBinned", ~o.prebinned)
Quad(s) == SortSeq([i \in 1..Len(s.diam) |-> <<s.diam[i], s.frac[i], s.lon[i], s.lat[i]>>],
                   LAMBDA x, y : \E k \in 1..4 : RLt(x[k], y[k]) /\ \A j \in 1..(k-1) : REq(x[j], y[j]))
SameQuads(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : \A k \in 1..4 : RClose(p[i][k], q[i][k], "1e-12")
StatOk(s, e) ==
  LET o == e.out IN
  C("BinMin", RSeqClose(o.b.d_min, s.d_min, "1e-12", "0")) \o C("BinMax", RSeqClose(o.b.d_max, s.d_max, "1e-9", "0")) \o
  C("BinN", RSeqClose(o.b.n, s.n, "1e-12", "0")) \o C("BinEvents", RSeqClose(o.b.n_event, s.n_event, "1e-12", "0")) \o C("BinCum", RSeqClose(o.b.ncum, s.ncum, "1e-12", "0")) \o
  C("BinWidth", \A i \in 1..Len(o.b.d_min) : RNear(o.b.bin_width[i], RSub(s.d_max[i], s.d_min[i]), "1e-9")) \o
  C("BinMean", \A i \in 1..Len(o.b.d_min) : RClose(o.b.d_mean[i], RSqrt(RMul(s.d_max[i], s.d_min[i])), "1e-9")) \o
  C("StatArea", RClose(o.area, s.area, "1e-12")) \o C("Prebinned", o.prebinned)
J(st_, e) ==
  LET i == e.in IN
  CASE e.ev = "refused" -> C("Refused", Refused(e) /\ StrHas(e.msg, i.names))
    [] e.ev = "stat" -> (LET s == TLCEval(Stat(i.text)) IN
         C("GeneratorAgrees", s.ok = i.good) \o
         (IF ~s.ok THEN C("UnreadableRefused", Refused(e)) ELSE C("Read", e.exc = "" /\ IsRec(e.out)) \o If(e.exc = "", StatOk(s, e))))
    [] e.ev = "spatial" -> (LET s == TLCEval(Spatial(Parsed(i.text))) IN C("GeneratorAgrees", s.ok) \o C("ReadSpatial", e.exc = "") \o If(e.exc = "", C("Positions", SameQuads(TLCEval(Quad(e.out)), TLCEval(Quad(s))))))
    [] e.ev \in {"diam", "scc"} -> (LET es == TLCEval(Parsed(i.text)) s == TLCEval(IF e.ev = "diam" THEN Diam(es) ELSE Scc(es)) IN
         C("GeneratorAgrees", s.ok = i.good /\ (s.ok => Len(s.diam) = i.n)) \o
         (IF ~s.ok THEN C("UnreadableRefused", Refused(e)) ELSE C("Read", e.exc = "" /\ IsRec(e.out)) \o If(e.exc = "", List(s, e))))
=============================================================================
