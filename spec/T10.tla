-------------------------------- MODULE T10 --------------------------------
(* C10: overplots of command lines of the real code against Cli *)
EXTENDS Verdict, Cli
Flags == {"snap", "error_bars", "hide", "age_left", "show_age", "resurf", "resurf_showall", "isochron"}
NumList(t) == StrSplit(StrReplace(StrReplace(t, "[", ""), "]", ""), ",")
InDec(dec, t, r) == \E j \in 1..Len(dec) : dec[j][1] = t /\ Len(r) = 2 /\ REq(dec[j][2][1], r[1]) /\ REq(dec[j][2][2], r[2])
\* palette: the colour (given by name) drawn on white or inverted background
Hex(i, c) == IF StrStarts(c, "#") THEN StrLower(c) ELSE StrLower(i.palette[IndexOf(c, ColourName)])
Expected(i, x) == Overplots(i.pres, i.clauses)[x]
DefaultName(src) == StrReplace(StrReplace(src, ".diam", ""), ".scc", "")
Shows(i, x, o, op) == Overplots(i.pres, i.clauses)
J(s, e) ==
  LET i == e.in o == e.out
      dcs == TLCEval([k \in 1..Len(i.clauses) |-> TLCEval(Decoded(i.clauses[k]))])
      acc == TLCEval(Accepted(i.clauses))
  IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
   IF ~acc THEN C("FirstNeedsSource", o.exit = "SystemExit" /\ o.msg # "None" /\ o.created = <<>>)
   ELSE
    C("Accepted", o.exit = "") \o
    If(o.exit = "",
     LET ps == TLCEval(OverplotsD(i.pres, <<>>, dcs)) p == o.plots IN
     C("OnePerClause", Len(p) = Len(ps)) \o
     If(Len(p) = Len(ps),
       C("Source", \A k \in 1..Len(ps) : p[k].source = ps[k].source) \o
       C("CarriedSymbol", \A k \in 1..Len(ps) : MarkerName[p[k].psym + 1] = ps[k].psym) \o
       C("CarriedBinning", \A k \in 1..Len(ps) : p[k].binning = ps[k].binning) \o
       C("CarriedColour", \A k \in 1..Len(ps) : StrLower(p[k].colour) = Hex(i, ps[k].colour)) \o
       C("AnalysisType", \A k \in 1..Len(ps) : p[k].type = ps[k].type \/ TypeOpen(i.pres, ps, i.clauses, k)) \o
       C("Switches", \A k \in 1..Len(ps), f \in Flags : StrOfInt(p[k][f]) = ps[k][f]) \o
       C("Name", \A k \in 1..Len(ps) : p[k].name = IF ps[k].name = "" THEN DefaultName(ps[k].source) ELSE ps[k].name) \o
       C("OffsetAge", \A k \in 1..Len(ps) : LET q == NumList(ps[k].offset_age) IN Len(p[k].offset_age) = Len(q) /\ \A j \in 1..Len(q) : REq(p[k].offset_age[j], q[j])) \o
       C("Range", \A k \in 1..Len(ps) : InDec(p[k].dec, ps[k].range, p[k].range)) \o
       If(i.csv,
         LET an == SelectSeq([k \in 1..Len(p) |-> p[k]], LAMBDA q : q.type # "data") IN
         C("TableRows", Len(o.rows) = Len(an) /\ \A k \in 1..Len(an) : o.rows[k].method = an[k].type /\ o.rows[k].binning = an[k].binning /\ o.rows[k].source = an[k].source /\ o.rows[k].name = an[k].name)))))
=============================================================================
