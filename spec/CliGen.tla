-------------------------------- MODULE CliGen ------------------------------
(* Scenarios of C10: all clauses over a small alphabet of settings (two values each, or not given) *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE done
Alt(k, vs) == {<<>>} \cup {<<<<k, v>>>> : v \in vs}
Clauses == {a \o b \o c \o d \o e : a \in Alt("source", {"A", "B"}), b \in Alt("type", {"data", "poisson"}), c \in Alt("psym", {"o", "fs"}), d \in Alt("colour", {"red", "blue"}), e \in Alt("binning", {"x2", "root-2"})}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [clauses |-> Clauses])
Spec == Init /\ [][Next]_done
=============================================================================
