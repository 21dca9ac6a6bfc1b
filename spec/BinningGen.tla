----------------------------- MODULE BinningGen ----------------------------
(* Scenarios of C01: all sets of up to K craters placed on, one rounding step below/above, or between boundaries *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS Edges, K
VARIABLE done
Place == (0..Edges) \X {"below", "on", "above", "mid"}
Sets == UNION {kSubset(k, Place) : k \in 1..K}
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [sets |-> Sets])
Spec == Init /\ [][Next]_done
=============================================================================
