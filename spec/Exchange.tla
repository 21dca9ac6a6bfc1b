------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Merging and converting count files: a directory is a set of files, a    *)
(* command reads some of them and writes others.  What a command writes,   *)
(* under which names, and what the written file says, is a function of the *)
(* command and the files it names; nothing else changes.                   *)
(*   [op |-> "merge",   fs |-> names, out |-> text of -o]                  *)
(*   [op |-> "convert", fmt |-> format, fs |-> <<source>>, out |-> text    *)
(*                      of -o, dir |-> whether that is a directory,        *)
(*                      input |-> name of the plot file given with -i]     *)
(* A shapefile count is the pair X_CRATER.shp, X_AREA.shp.                 *)
(***************************************************************************)
EXTENDS Nums, SequencesExt
Last1(q) == q[Len(q)]
NameOf(f) == Last1(StrSplit(f, "/"))
Ext(f) == LET q == StrSplit(NameOf(f), ".") IN IF Len(q) < 2 THEN "" ELSE Last1(q)
\* without the extension (one that is at most four characters long)
Bare(f) == LET e == Ext(f) IN IF e = "" \/ Len(StrChars(e)) > 4 THEN f ELSE StrJoin(SubSeq(StrChars(f), 1, Len(StrChars(f)) - Len(StrChars(e)) - 1), "")
Stem(f) == Bare(NameOf(f))
Plain(t) == StrReplace(StrReplace(StrReplace(StrReplace(t, "_CRATER_", ""), "_CRATER", ""), "CRATER_", ""), "CRATER", "")
Lists == {"diam", "scc", "shp"}                \* craters one by one
Spatials == {"scc", "shp"}                     \* with positions and boundary
Maps == {"png", "svg", "pdf"}
Supported(from, to) == \/ to = "stat" /\ from \in Lists
                       \/ to = "scc" /\ from = "shp"
                       \/ to = "shp" /\ from = "scc"
                       \/ to \in Maps /\ from \in Spatials
Accepted(cmd, there) ==
  /\ \A k \in 1..Len(cmd.fs) : cmd.fs[k] \in there
  /\ IF cmd.op = "merge" THEN Len(cmd.fs) >= 2 /\ \A k \in 1..Len(cmd.fs) : Ext(cmd.fs[k]) \in Lists
     ELSE Supported(Ext(cmd.fs[1]), cmd.fmt)
\* ---------------------------------------------------------------- names written
Layer(x) == {x \o "." \o e : e \in {"shp", "shx", "dbf", "prj", "qml"}}
MergedName(cmd) == (IF cmd.out # "" THEN Bare(cmd.out) ELSE StrJoin(StrSorted([k \in 1..Len(cmd.fs) |-> Stem(cmd.fs[k])]), "_")) \o ".diam"
ConvertedBase(cmd) ==
  IF (cmd.out # "" /\ ~cmd.dir) THEN Bare(cmd.out)
  ELSE IF cmd.input # "" /\ cmd.fmt \notin {"stat", "scc"} THEN Stem(cmd.input)
  ELSE (IF cmd.out # "" THEN cmd.out \o "/" ELSE "") \o Plain(Stem(cmd.fs[1]))
Written(cmd) ==
  IF cmd.op = "merge" THEN {MergedName(cmd)}
  ELSE LET b == ConvertedBase(cmd) IN
    CASE cmd.fmt = "shp" -> Layer(b \o "_CRATER") \cup Layer(b \o "_AREA")
      [] cmd.fmt \in Maps -> IF cmd.input # "" THEN {b \o "." \o cmd.fmt} ELSE {b \o "_map." \o cmd.fmt, b \o "_map.cs"}
      [] OTHER -> {b \o "." \o cmd.fmt}
\* the count among the written files
Main(cmd) == IF cmd.op = "merge" THEN MergedName(cmd) ELSE IF cmd.fmt = "shp" THEN ConvertedBase(cmd) \o "_CRATER.shp" ELSE ConvertedBase(cmd) \o "." \o cmd.fmt
=============================================================================
