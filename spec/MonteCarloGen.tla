---------------------------- MODULE MonteCarloGen ---------------------------
(* all schedules of T trials on W workers, replayed into the real code *)
EXTENDS MonteCarlo, TLC, Json, IOUtils
VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE /\ JsonSerialize(IOEnv.GEN_FILE, [schedules |-> Runs(Start0)])
Spec == Init /\ [][Next]_done
=============================================================================
