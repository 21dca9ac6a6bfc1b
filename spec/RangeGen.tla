------------------------------ MODULE RangeGen -----------------------------
(* Scenarios of C03: occupancy patterns of a window of bins and limit tokens *)
EXTENDS Integers, FiniteSets, TLC, Json, IOUtils
VARIABLE done
CONSTANT N
Tokens == {<<"b", n>> : n \in -(N+2)..(N+2)} \cup {<<"on", x>> : x \in -1..(N+1)} \cup {<<"in", x>> : x \in -1..N} \cup {<<"inf", 0>>, <<"zero", 0>>}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [tokens |-> Tokens, patterns |-> (SUBSET (0..(N-1))) \ {{}}])
Spec == Init /\ [][Next]_done
=============================================================================
