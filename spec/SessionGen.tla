----------------------------- MODULE SessionGen ----------------------------
(* all histories of configuring, editing, removing and moving, replayed into the real code with commands in between *)
EXTENDS Session, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Dirs, Names
VARIABLE done
Files == {Join(d, n) : d \in Dirs, n \in Names}
Acts == {[op |-> "set", path |-> [abs |-> FALSE, name |-> n]] : n \in Names} \cup {[op |-> "set", path |-> [abs |-> TRUE, name |-> f]] : f \in Files}
        \cup {[op |-> "write", file |-> f, content |-> c] : f \in Files, c \in {"A", "B", "C", "unreadable"}}
        \cup {[op |-> "remove", file |-> f] : f \in Files} \cup {[op |-> "cd", dir |-> d] : d \in Dirs}
Start == [disk |-> [f \in {Join(CHOOSE d \in Dirs : TRUE, CHOOSE n \in Names : TRUE)} |-> "A"], cfg |-> "", dir |-> CHOOSE d \in Dirs : TRUE]
\* only steps which change the state
RECURSIVE Runs(_, _)
Runs(s, n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<a>> \o q : q \in Runs(Apply(s, a), n - 1)} : a \in {b \in Acts : Apply(s, b) # s}}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [start |-> [dir |-> Start.dir, file |-> CHOOSE f \in DOMAIN Start.disk : TRUE], runs |-> SetToSeq(Runs(Start, Depth))])
Spec == Init /\ [][Next]_done
=============================================================================
