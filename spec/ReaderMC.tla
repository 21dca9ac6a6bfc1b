------------------------------ MODULE ReaderMC ------------------------------
(* A count is written row by row in any column order with comments, blank lines and further columns put in;
   what is read is the bag of craters written. *)
EXTENDS Reader, FiniteSets
CONSTANTS Kinds, MaxRows, MaxNoise
VARIABLES kind, cols, area, rows, lines, noise
vars == <<kind, cols, area, rows, lines, noise>>
Dn == IF kind = "diam" THEN "diameter" ELSE "diam"
Column(k) == LET d == IF k = "diam" THEN "diameter" ELSE "diam" IN
   {<<d>>, <<d, "fraction">>, <<"fraction", d>>, <<"lon", d, "lat">>, <<"fraction", "tag", d>>} \cup (IF k = "diam" THEN {<<d, "reference_area">>, <<"reference_area", d, "fraction">>} ELSE {})
AreaLines(k) == IF k = "diam" THEN {"area=250.", "area = 2.5e2", "area = '250'"} ELSE {"Total_area = 250. <km^2>", "Total_area=2.5e+02 <km2>", "Total_area = 250<km^2>"}
CraterSet == {<<"1.5", "1">>, <<".25", "0.5">>, <<"1.5", "0.25">>, <<"2e1", "1.0">>}
Cell(c, x) == CASE c = Dn -> x[1] [] c = "fraction" -> x[2] [] c = "reference_area" -> x[2] [] c = "tag" -> "'two words'" [] OTHER -> "7"
Init == /\ kind \in Kinds /\ cols \in Column(kind) /\ area \in BOOLEAN /\ rows = <<>> /\ noise = 0
        /\ \E a \in AreaLines(kind) : lines = (IF area THEN <<a>> ELSE <<>>) \o <<"crater = {" \o StrJoin(cols, ", ")>>
AddRow == Len(rows) < MaxRows /\ \E x \in CraterSet : rows' = Append(rows, x) /\ \E sep \in {"\t", "  "} :
            lines' = Append(lines, StrJoin([i \in 1..Len(cols) |-> Cell(cols[i], x)], sep)) /\ UNCHANGED <<kind, cols, area, noise>>
AddNoise == noise < MaxNoise /\ noise' = noise + 1 /\ \E i \in 0..Len(lines), c \in {"# Area_size 1 = 9", "", "; crater = 5"} :
            lines' = SubSeq(lines, 1, i) \o <<c>> \o SubSeq(lines, i + 1, Len(lines)) /\ UNCHANGED <<kind, cols, area, rows>>
Trail == noise < MaxNoise /\ noise' = noise + 1 /\ \E i \in 1..Len(lines) : lines' = [lines EXCEPT ![i] = @ \o " ; 3"] /\ UNCHANGED <<kind, cols, area, rows>>
Next == AddRow \/ AddNoise \/ Trail
Spec == Init /\ [][Next]_vars
HasCol(c) == \E i \in 1..Len(cols) : cols[i] = c
Said == LET es == Parsed(StrJoin(lines \o <<"}">>, "\n")) IN IF kind = "diam" THEN Diam(es) ELSE Scc(es)
Frac(x) == IF HasCol("reference_area") THEN RDiv("1", RNum(x[2])) ELSE IF HasCol("fraction") THEN RNum(x[2]) ELSE "1.0"
Buffered == HasCol("reference_area")
ReadsAsWritten ==
  LET s == TLCEval(Said) IN
  /\ s.ok <=> (area \/ Buffered)
  /\ s.ok => /\ SamePairs(Pairs(s.diam, s.frac), Pairs([i \in 1..Len(rows) |-> RNum(rows[i][1])], [i \in 1..Len(rows) |-> Frac(rows[i])]))
             /\ s.buffered = Buffered /\ REq(s.area, IF Buffered THEN "1" ELSE "250")
=============================================================================
