---------------------------- MODULE TextStructMC ----------------------------
(* Documents written entry by entry, each entry in one of several concrete forms, with comments, blank
   lines, trailing comments and indentation put in as one goes; the parsed meaning is that of the entries. *)
EXTENDS TextStruct, FiniteSets
CONSTANTS Keyset, MaxEntries, MaxNoise
VARIABLES ents, lines, noise
vars == <<ents, lines, noise>>
Sc(t) == [k |-> "scalar", t |-> t]
Li(q) == [k |-> "list", items |-> q]
Ta(tags, rows) == [k |-> "table", tags |-> tags, rows |-> rows]
St(es) == [k |-> "struct", entries |-> es]
\* concrete forms: lines that may be followed / trailed by noise
Forms(k) == {
  <<Sc("5"), <<k \o "=5">>>>, <<Sc("5"), <<k \o "\t= '5'">>>>, <<Sc("a;b"), <<k \o " = \"a;b\"">>>>, <<Sc("O'B 2"), <<k \o "=O'B 2">>>>, <<Sc(""), <<k \o "=">>>>, <<Sc("x = y"), <<k \o "=x = y">>>>,
  <<Li(<<"1", "2">>), <<k \o "=[1, 2]">>>>, <<Li(<<"1", "2">>), <<k \o " = *[ 1,", "  2 ]">>>>, <<Li(<<"a, b", "c'd">>), <<k \o "=('a, b' ,c'd)">>>>,
  <<Ta(<<"x", "y">>, << >>), <<k \o "={x,y", "}">>>>, <<Ta(<<"x", "y">>, <<<<"1", "2 ;">>, <<"3", "">>>>), <<k \o "={x,\ty", "1\t'2 ;'", " 3", " }">>>>,
  <<St(<<<<"p", Sc("1")>>, <<"q", Li(<<"2">>)>>>>), <<k \o "={", " p=1", " q=[2]", "}">>>>, <<St(<<<<"t", Ta(<<"x">>, <<<<"7">>>>)>>, <<"t", Ta(<<"x">>, <<<<"8">>>>)>>>>), <<k \o "={", "t={x", "7", "}", "t={x", "8", "}", "}">>>> }
Repeatable(v) == v.k \in {"scalar", "struct"}
Init == ents = <<>> /\ lines = <<>> /\ noise = 0
AddEntry == Len(ents) < MaxEntries /\ \E k \in Keyset : \E f \in Forms(k) :
   /\ \A i \in 1..Len(ents) : ents[i][1] = k => Repeatable(f[1]) /\ Repeatable(ents[i][2])
   /\ ents' = Append(ents, <<k, f[1]>>) /\ lines' = lines \o f[2] /\ UNCHANGED noise
AddNoise == noise < MaxNoise /\ lines # <<>> /\ noise' = noise + 1 /\ UNCHANGED ents /\
   \/ \E n \in 1..Len(lines), c \in {"# k = 5", "", " \t", "  # it's", "; note"} : lines' = SubSeq(lines, 1, n) \o <<c>> \o SubSeq(lines, n + 1, Len(lines))
   \/ \E n \in 1..Len(lines), c \in {" ; k = 5", "\t;it's", "  "} : lines' = [lines EXCEPT ![n] = @ \o c]
   \/ \E n \in 1..Len(lines), c \in {" ", "\t"} : lines' = [lines EXCEPT ![n] = c \o @]
Next == AddEntry \/ AddNoise
Spec == Init /\ [][Next]_vars
Denotation == Meaning(StrJoin(lines, "\n")) = Leaves("", ents)
Typed == \A x \in Leaves("", ents) : IsStr(x[1]) /\ IsStr(x[2])
=============================================================================
