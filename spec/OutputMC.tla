------------------------------ MODULE OutputMC ------------------------------
(* A run that writes its formats one by one in any order; the directory it ends with is FilesOf(request). *)
EXTENDS Output
CONSTANTS Press, Outs, FormatSets, MaxSources
VARIABLES r, pc, todo, dir
vars == <<r, pc, todo, dir>>
Src == <<"A.diam", "B b.scc", "x_CRATER.shp", "d/CRATER_y.shp">>
Lists == {<<>>} \cup {<<Src[i]>> : i \in 1..MaxSources} \cup {<<Src[i], Src[j]>> : i \in 1..MaxSources, j \in 1..MaxSources}
Init == /\ r \in [pres: Press, formats: FormatSets, givenFormats: BOOLEAN, out: Outs, outIsDir: BOOLEAN, replay: BOOLEAN, stem: {"p/st"}, system: {"Moon, X (1983)"},
                  dmin: {"0.15"}, sources: Lists, ages: {0, 2}, dated: {0, 2}, table: BOOLEAN]
        /\ (r.out = "" => ~r.outIsDir) /\ (~r.givenFormats => r.formats = {}) /\ (r.sources = <<>> => r.ages = 0 /\ r.dated = 0) /\ r.dated <= r.ages
        /\ pc = "write" /\ todo = Formats(r) /\ dir = {}
WriteOne == pc = "write" /\ \E f \in todo : dir' = dir \cup FilesFor(r, f) /\ todo' = todo \ {f} /\ UNCHANGED <<r, pc>>
Sequence == pc = "write" /\ todo = {} /\ pc' = "cs" /\ dir' = dir \cup (Extras(r) \ {BaseName(r) \o ".cs"}) /\ UNCHANGED <<r, todo>>
CommandFile == pc = "cs" /\ pc' = "done" /\ dir' = dir \cup (Extras(r) \cap {BaseName(r) \o ".cs"}) /\ UNCHANGED <<r, todo>>
Next == WriteOne \/ Sequence \/ CommandFile
Spec == Init /\ [][Next]_vars
Complete == pc = "done" => dir = FilesOf(r)
Named == \A f \in dir : StrStarts(f, BaseName(r))
\* only the requested kinds, the command file last and only when not replaying
Kinds == \A f \in dir : \/ Ext(f) \in Formats(r) \/ StrEnds(f, "_sequence.csv")
                        \/ (Ext(f) = "cs" /\ ~r.replay /\ pc = "done")
OneCommand == pc = "done" => Cardinality({f \in dir : Ext(f) = "cs"}) = (IF r.replay THEN 0 ELSE 1)
InDirectory == r.outIsDir => \A f \in dir : StrStarts(f, r.out \o "/") /\ ~StrHas(StrReplace(f, r.out \o "/", ""), "/")
NoTable == (r.pres = "uncertainty" \/ r.ages = 0) => \A f \in dir : f # BaseName(r) \o ".csv"
ASSUME Untagged("x_CRATER") = "x" /\ Untagged("CRATER_y") = "y" /\ Untagged("a_CRATER_b") = "ab" /\ Untagged("CRATER") = "" /\ Untagged("aCRATERb") = "ab" /\ Untagged("none_") = "none_"
ASSUME Stem("v1.2") = "v1" /\ Ext("a.b.png") = "png" /\ Stem("a.b.png") = "a.b" /\ Ext("a.tiffs") = "" /\ Stem("dir.x/n") = "dir.x/n" /\ Leaf("a/b.c") = "b.c"
\* a ranking exists for every list of ages; it is unique when they differ
ASSUME \A t \in [1..3 -> {"1", "2", "3"}] : Ranks(t) # {} /\ \A p \in Ranks(t) : IsRanking(p, t)
ASSUME \A t \in [1..3 -> {"1", "2", "3"}] : Cardinality({t[i] : i \in 1..3}) = 3 => Cardinality(Ranks(t)) = 1
=============================================================================
