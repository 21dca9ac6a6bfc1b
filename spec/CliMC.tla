-------------------------------- MODULE CliMC -------------------------------
(* The clause machine against a direct characterisation: the value of an overplot setting is the one
   last given, as far as the setting carries; overplots already made never change. *)
EXTENDS Cli, FiniteSets
CONSTANTS MaxClauses, Pres
VARIABLES cls, ps
vars == <<cls, ps>>
Alt(k, vs) == {<<>>} \cup {<<<<k, v>>>> : v \in vs}
Clauses == {a \o b \o c \o d : a \in Alt("src", {"A", "B"}), b \in Alt("ty", {"dat", "pois"}), c \in Alt("psym", {"o", "fs"}), d \in Alt("name", {"n"})}
DClauses == {Decoded(c) : c \in Clauses}
Init == cls = <<>> /\ ps = <<>>
Next == /\ Len(cls) < MaxClauses
        /\ \E c \in DClauses : /\ cls = <<>> => Gives(c, "source")
                              /\ cls' = Append(cls, c) /\ ps' = Append(ps, OverplotD(Pres, ps, c))
Spec == Init /\ [][Next]_vars
LastGiver(k, j) == LET s == {i \in 1..j : Gives(cls[i], k)} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A x \in s : x <= i
Direct == \A j \in 1..Len(cls) :
   /\ \A k \in Carried : ps[j][k] = IF LastGiver(k, j) = 0 THEN Defaults(Pres)[k] ELSE Given(cls[LastGiver(k, j)], k)
   /\ \A k \in KeySet \ (Carried \cup {"type"}) : ps[j][k] = IF Gives(cls[j], k) THEN Given(cls[j], k) ELSE Defaults(Pres)[k]
   /\ ps[j].type = LET g == LastGiver("type", j) s == LastGiver("source", j) IN
                   IF g = 0 \/ s > g THEN Defaults(Pres).type ELSE Given(cls[g], "type")
FoldsAlike == ps = OverplotsD(Pres, <<>>, cls)
Earlier == [][\A j \in 1..Len(ps) : ps'[j] = ps[j]]_vars
TypesOk == \A j \in 1..Len(ps) : DOMAIN ps[j] = KeySet /\ ps[j].source # ""
\* abbreviation laws on the published lists
Lists == {Presentations, TypeNames, Keys, Binnings, MarkerName, ColourName}
ASSUME \A q \in Lists : \A i \in 1..Len(q) : LET c == Choice(q[i], q) IN c # 0 /\ Abbreviates(q[i], q[c]) /\ Size(q[c]) <= Size(q[i])
ASSUME \A q \in Lists : \A i \in 1..Len(q) : StrLower(q[Choice(q[i], q)]) = StrLower(q[i])      \* an exact name selects itself
ASSUME \A i \in 1..Len(MarkerAbbr) : Marker(MarkerAbbr[i]) = i
ASSUME \A q \in Lists : \A v \in {"c", "d", "Po", "gr", "sq", "r2", "1", "zz", "2", "l", "red", "buf"} :
         /\ (Unambiguous(v, q) # 0 => Choice(v, q) = Unambiguous(v, q))
         /\ (Choice(v, q) = 0 <=> Matching(v, q) = {})
=============================================================================
