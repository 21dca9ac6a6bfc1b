----------------------------- MODULE ExchangeGen ----------------------------
(* all histories of up to three merges and conversions over four counts, replayed into the real code *)
EXTENDS Exchange, FiniteSets, TLC, Json, IOUtils
CONSTANT Depth
VARIABLE done
Start == {"a.diam", "b.scc", "c_CRATER.shp", "p.stat"}
Merges(S) == {[op |-> "merge", fs |-> <<a, b>>, out |-> o] : a, b \in S, o \in {"", "m"}} \cup {[op |-> "merge", fs |-> <<a>>, out |-> "m"] : a \in S}
Conversions(S) == {[op |-> "convert", fmt |-> t, fs |-> <<f>>, out |-> o, dir |-> o = "d", input |-> ""] : t \in {"stat", "scc", "shp", "diam"}, f \in S, o \in {"", "x", "d"}}
Cmds(S) == Merges(S) \cup Conversions(S)
RECURSIVE Runs(_, _)
\* after a history that starts with refused commands nothing new can happen: only histories whose last command builds on an earlier result are kept
Runs(S, n) == UNION {LET T == IF Accepted(c, S) THEN S \cup {Main(c)} ELSE S IN
                 IF n = 1 \/ T = S THEN {<<c>>} ELSE {<<c>> \o r : r \in {q \in Runs(T, n-1) : Main(c) \in {q[1].fs[k] : k \in 1..Len(q[1].fs)}}} : c \in Cmds(S)}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [runs |-> SetToSeq(Runs(Start, Depth))])
Spec == Init /\ [][Next]_done
=============================================================================
