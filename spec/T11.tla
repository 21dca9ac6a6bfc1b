-------------------------------- MODULE T11 --------------------------------
(* C11: what abbreviations typed on the command line select, against Cli *)
EXTENDS Verdict, Cli
\* the list an option chooses from; chronology systems etc. are the ones the program offers
ListOf(what, o) == CASE what = "pr" -> Presentations [] what = "type" -> TypeNames [] what = "binning" -> Binnings
                     [] what = "colour" -> ColourName [] what = "key" -> Keys [] what = "psym" -> MarkerName [] OTHER -> o.names
\* index selected, 0: refused
Selected(what, t, names) ==
  CASE what = "pr" -> Unambiguous(t, names)
    [] what = "psym" -> Marker(t)
    [] OTHER -> Choice(t, names)
Refuses(o) == o.exit # "" /\ o.msg # "" /\ o.created = <<>> /\ o.changed = <<>>
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
   CASE e.ev = "sel" ->
     (LET names == ListOf(i.what, o)
          hex == i.what = "colour" /\ StrStarts(i.text, "#")
          n == IF hex THEN (IF IsHex(i.text) THEN -1 ELSE 0) ELSE TLCEval(Selected(i.what, i.text, names))
          amb == i.what = "pr" /\ Matching(i.text, names) # {} IN
      IF n = 0 THEN
        IF amb THEN C("AmbiguousRefused", Refuses(o)) ELSE C("UnmatchedRefused", Refuses(o))
      ELSE
        C("MatchAccepted", o.exit = "") \o
        If(o.exit = "",
          IF n = -1 THEN C("ColourValue", StrLower(o.got) = StrLower(i.text))
          ELSE C(IF StrLower(names[n]) = StrLower(i.text) THEN "ExactSelected" ELSE "ShortestSelected",
                 CASE i.what = "type" -> o.got = TypeShort[n]
                   [] i.what = "colour" -> StrLower(o.got) = StrLower(i.palette[n])
                   [] i.what = "psym" -> o.got = n - 1
                   [] i.what = "key" -> o.got = Keys[n]
                   [] OTHER -> o.got = names[n])))
   [] e.ev = "refuse" -> C("InvalidRefused", Refuses(o)))
=============================================================================
