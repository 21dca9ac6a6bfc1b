--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: names and their abbreviations, and the overplots a    *)
(* sequence of -p clauses denotes.                                         *)
(* A clause is a sequence of <<key, value>> texts as typed.                *)
(***************************************************************************)
EXTENDS Nums, TLC

\* ---------------------------------------------------------------- published names (manual)
Presentations == <<"cumulative", "differential", "R-plot", "Hartmann", "chronology", "rate", "sequence", "uncertainty", "map", "sdaa", "m2cnd">>
TypeNames     == <<"data", "differential-fit", "cumulative-fit", "poisson", "buffered-poisson">>
TypeShort     == <<"data", "d-fit", "c-fit", "poisson", "b-poisson">>
Keys == <<"source", "name", "range", "snap", "type", "error_bars", "hide", "colour", "psym", "binning", "age_left", "show_age",
          "resurf", "resurf_showall", "isochron", "offset_age">>
Binnings == <<"pseudo-log", "20/decade", "10/decade", "x2", "root-2", "4th root-2", "none">>
MarkerAbbr == <<"s", "o", "*4", "^", "*", "x", "+", ".", "v", "fs", "fo", "f*4", "f^", "f*", "fv">>
MarkerName == <<"square", "circle", "star4", "triangle", "star5", "diagonal cross", "cross", "point", "inverted triangle",
                "filled square", "filled circle", "filled star4", "filled triangle", "filled star5", "filled inverted triangle">>
ColourName == <<"Black", "Red", "Green", "Blue", "Yellow", "Violet", "Grey", "blue1", "blue2", "blue3", "blue4", "brown1", "brown2", "brown3", "brown4",
                "green1", "green2", "green3", "orange", "pink1", "pink2", "pink3", "purple1", "purple2", "red1", "red2", "red3", "teal1", "teal2",
                "yellow1", "yellow2", "yellow-green">>

\* ---------------------------------------------------------------- abbreviations
RECURSIVE SubSeqFrom(_, _, _, _)
SubSeqFrom(v, s, i, j) == IF i > Len(v) THEN TRUE ELSE IF j > Len(s) THEN FALSE
                          ELSE IF v[i] = s[j] THEN SubSeqFrom(v, s, i + 1, j + 1) ELSE SubSeqFrom(v, s, i, j + 1)
Abbreviates(v, s) == SubSeqFrom(StrChars(StrLower(v)), StrChars(StrLower(s)), 1, 1)   \* letters appearing in order
Matching(v, names) == {i \in 1..Len(names) : Abbreviates(v, names[i])}
Size(s) == Len(StrChars(s))
\* shortest matching name, the earliest on ties; 0 if none
Choice(v, names) == LET m == TLCEval(Matching(v, names)) IN
   IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m \ {i} : Size(names[i]) < Size(names[j]) \/ (Size(names[i]) = Size(names[j]) /\ i < j)
Unambiguous(v, names) == LET m == TLCEval(Matching(v, names)) IN IF \E i \in m : m = {i} THEN CHOOSE i \in m : TRUE ELSE 0

\* index of an exact element, 0 if none
IndexOf(x, q) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Marker(v) == IF IndexOf(v, MarkerAbbr) > 0 THEN IndexOf(v, MarkerAbbr) ELSE Choice(v, MarkerName)
HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
IsHex(v) == LET c == StrChars(v) IN Len(c) = 7 /\ c[1] = "#" /\ \A i \in 2..7 : c[i] \in HexDigits
Key(k) == IF Choice(k, Keys) = 0 THEN "" ELSE Keys[Choice(k, Keys)]

\* ---------------------------------------------------------------- values: text of a setting -> value, Bad if refused
Bad == "?bad"
Value(k, v) ==
  CASE k = "type"    -> (IF Choice(v, TypeNames) = 0 THEN Bad ELSE TypeShort[Choice(v, TypeNames)])
    [] k = "binning" -> (IF Choice(v, Binnings) = 0 THEN Bad ELSE Binnings[Choice(v, Binnings)])
    [] k = "psym"    -> (IF Marker(v) = 0 THEN Bad ELSE MarkerName[Marker(v)])
    [] k = "colour"  -> (IF StrStarts(v, "#") THEN (IF IsHex(v) THEN v ELSE Bad)
                         ELSE IF Choice(v, ColourName) = 0 THEN Bad ELSE ColourName[Choice(v, ColourName)])
    [] OTHER -> v

Carried == {"source", "psym", "snap", "isochron", "error_bars", "colour", "binning"}
Defaults(pres) == [source |-> "", name |-> "", range |-> "[0,inf]", snap |-> "1", type |-> IF pres = "sequence" THEN "poisson" ELSE "data",
                   error_bars |-> "1", hide |-> "0", colour |-> "Black", psym |-> "circle", binning |-> "pseudo-log", age_left |-> "0", show_age |-> "1",
                   resurf |-> "0", resurf_showall |-> "0", isochron |-> "0", offset_age |-> "[0,0]"]
KeySet == {Keys[i] : i \in 1..Len(Keys)}

\* ---------------------------------------------------------------- one clause: decoded assignments
Decoded(cl) == [i \in 1..Len(cl) |-> LET k == Key(cl[i][1]) IN <<k, IF k = "" THEN Bad ELSE Value(k, cl[i][2])>>]
Refused(cl) == \E i \in 1..Len(cl) : Decoded(cl)[i][2] = Bad
Gives(dc, k) == \E i \in 1..Len(dc) : dc[i][1] = k
Given(dc, k) == dc[CHOOSE i \in 1..Len(dc) : dc[i][1] = k /\ \A j \in (i+1)..Len(dc) : dc[j][1] # k][2]    \* the last one given counts

\* the overplot a (decoded) clause dc denotes after the overplots `done'
OverplotD(pres, done, dc) ==
  LET first == done = <<>>
      prev == IF first THEN Defaults(pres) ELSE done[Len(done)]
      newsource == Gives(dc, "source")
  IN  [k \in KeySet |-> IF Gives(dc, k) THEN Given(dc, k)
                        ELSE IF ~first /\ (k \in Carried \/ (k = "type" /\ ~newsource)) THEN prev[k] ELSE Defaults(pres)[k]]
RECURSIVE OverplotsD(_, _, _)
OverplotsD(pres, done, dcs) == IF dcs = <<>> THEN done ELSE OverplotsD(pres, Append(done, TLCEval(OverplotD(pres, done, Head(dcs)))), Tail(dcs))
Overplots(pres, cls) == OverplotsD(pres, <<>>, TLCEval([i \in 1..Len(cls) |-> TLCEval(Decoded(cls[i]))]))
Accepted(cls) == /\ \A i \in 1..Len(cls) : ~Refused(cls[i])
                 /\ cls # <<>> => Gives(Decoded(cls[1]), "source")
\* naming the same source again may count as unchanged: its type is left open
TypeOpen(pres, ps, cls, i) == i > 1 /\ LET dc == Decoded(cls[i]) IN Gives(dc, "source") /\ ~Gives(dc, "type") /\ ps[i].source = ps[i-1].source
=============================================================================
