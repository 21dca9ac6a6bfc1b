------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Files of a run.  A request                                               *)
(*   [pres, formats, givenFormats, out, outIsDir, replay, stem, system,     *)
(*    dmin, sources, ages, dated, table]                                    *)
(* (texts; out = "" when no -o; replay: run from a command file with the    *)
(* given path-without-extension; ages: number of age analyses; dated:       *)
(* number of visible Poisson-type overplots) denotes a set of files.        *)
(***************************************************************************)
EXTENDS Nums, TLC, FiniteSets
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
WordChars == Letters \cup {"0","1","2","3","4","5","6","7","8","9","_"}
Txt(q) == StrJoin(q, "")
\* ---------------------------------------------------------------- path texts
\* last position of an element of S in q, 0 if none
LastOf(q, S) == LET m == {i \in 1..Len(q) : q[i] \in S} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : j <= i
\* position of the dot of a short extension (up to four word characters at the end), 0 if none
Dot(q) == LET i == LastOf(q, {"."}) IN IF i > 0 /\ Len(q) - i \in 1..4 /\ \A j \in (i+1)..Len(q) : q[j] \in WordChars THEN i ELSE 0
Stem(t)  == LET q == StrChars(t) IN IF Dot(q) = 0 THEN t ELSE Txt(SubSeq(q, 1, Dot(q) - 1))          \* without extension
Ext(t)   == LET q == StrChars(t) IN IF Dot(q) = 0 THEN "" ELSE Txt(SubSeq(q, Dot(q) + 1, Len(q)))
Leaf(t)  == LET q == StrChars(t) IN Txt(SubSeq(q, LastOf(q, {"/"}) + 1, Len(q)))
Inside(d, n) == IF StrEnds(d, "/") THEN d \o n ELSE d \o "/" \o n
\* ---------------------------------------------------------------- default names
RECURSIVE NoCrater(_, _, _)
NoCrater(p, i, acc) == IF i > Len(p) THEN acc
   ELSE NoCrater(p, i + 1, (IF Len(acc) > 0 /\ acc[Len(acc)] = "_" THEN SubSeq(acc, 1, Len(acc) - 1) ELSE acc)
                           \o (LET c == StrChars(p[i]) IN IF Len(c) > 0 /\ c[1] = "_" THEN Tail(c) ELSE c))
\* shapefile layer tag: `CRATER' with the underscores around it
Untagged(n) == LET p == StrSplit(n, "CRATER") IN IF Len(p) = 1 THEN n ELSE Txt(NoCrater(p, 2, StrChars(p[1])))
SystemName(t) == Txt(SelectSeq(StrChars(t), LAMBDA c : c \in WordChars))
DefaultName(r) ==
  IF r.replay THEN r.stem
  ELSE IF r.pres \in {"chronology", "rate"} THEN SystemName(r.system) \o "_" \o r.pres
  ELSE IF r.pres = "uncertainty" THEN SystemName(r.system) \o "_" \o r.dmin \o "_uncertainty"
  ELSE IF r.sources = <<>> THEN "out"
  ELSE Untagged(StrJoin([i \in 1..Len(r.sources) |-> Stem(Leaf(r.sources[i]))], "_"))      \* sources: without repetition, sorted by name
BaseName(r) == IF r.out = "" THEN DefaultName(r) ELSE IF r.outIsDir THEN Inside(r.out, Leaf(DefaultName(r))) ELSE Stem(r.out)
\* ---------------------------------------------------------------- the files
ImageFormats == {"png", "tif", "pdf", "svg"}
DefaultFormats == {"png", "csv"}
Formats(r) == IF r.givenFormats THEN r.formats
              ELSE DefaultFormats \cup (IF r.out = "" \/ r.outIsDir \/ Ext(r.out) = "" THEN {} ELSE {Ext(r.out)})
Parts(r) == IF r.pres = "uncertainty" THEN {"_k", "_err", "_age"} ELSE {""}
FilesFor(r, f) == IF f \in ImageFormats THEN {BaseName(r) \o p \o "." \o f : p \in Parts(r)}
                  ELSE IF f = "csv" /\ r.pres # "uncertainty" /\ r.ages > 0 THEN {BaseName(r) \o ".csv"} ELSE {}
Extras(r) == (IF r.table /\ r.pres = "sequence" /\ r.dated >= 2 THEN {BaseName(r) \o "_sequence.csv"} ELSE {})
             \cup (IF r.replay THEN {} ELSE {BaseName(r) \o ".cs"})
FilesOf(r) == Extras(r) \cup UNION {FilesFor(r, f) : f \in Formats(r)}
\* ---------------------------------------------------------------- results table: rank by age, oldest first
Ranks(t) == {p \in [1..Len(t) -> 0..(Len(t)-1)] : \A i, j \in 1..Len(t) : i # j => p[i] # p[j] /\ (RLt(t[j], t[i]) => p[i] < p[j])}
IsRanking(p, t) == /\ {p[i] : i \in 1..Len(p)} = 0..(Len(t) - 1) /\ Len(p) = Len(t)
                   /\ \A i, j \in 1..Len(t) : RLt(t[j], t[i]) => p[i] < p[j]
=============================================================================
