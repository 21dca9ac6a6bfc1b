----------------------------- MODULE MonteCarlo -----------------------------
(***************************************************************************)
(* Trials of one bin handed to worker processes.  A state is a record:     *)
(*   next  trial to be handed out                                          *)
(*   run   worker -> trial it is busy with (0: none)                       *)
(*   gen   worker -> state of its random generator, as the list of what it *)
(*         was seeded with and the configurations drawn since              *)
(*   res   trial -> random stream its configuration was drawn from         *)
(*   log   what happened: <<"start"|"finish", worker, trial>>              *)
(* Seeding: "trial"   each trial seeds from bin, number and its own index  *)
(*          "inherit" a worker goes on from the state copied at the fork   *)
(*          "worker"  each worker seeded once by its own number            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, W, Seeding
Trials == 1..T
Workers == 1..W
Start0 == [next |-> 1, run |-> [w \in Workers |-> 0], gen |-> [w \in Workers |-> IF Seeding = "worker" THEN <<w>> ELSE <<0>>],
           res |-> [t \in Trials |-> <<>>], log |-> <<>>]
Fresh(s, w) == s.gen[w] = Start0.gen[w] /\ \A k \in 1..Len(s.log) : s.log[k][2] # w
\* workers are alike (unless seeded by number): an unused one is taken in order
CanStart(s, w) == s.next <= T /\ s.run[w] = 0 /\ (Fresh(s, w) => \A v \in 1..(w-1) : ~Fresh(s, v))
Started(s, w) ==
  LET t == s.next
      g == IF Seeding = "trial" THEN <<"bin", "number", t>> ELSE s.gen[w]
  IN [s EXCEPT !.next = t + 1, !.run[w] = t, !.gen[w] = Append(g, "drawn"), !.res[t] = g, !.log = Append(@, <<"start", w, t>>)]
CanFinish(s, w) == s.run[w] # 0
Finished(s, w) == [s EXCEPT !.run[w] = 0, !.log = Append(@, <<"finish", w, s.run[w]>>)]
Over(s) == s.next > T /\ \A w \in Workers : s.run[w] = 0
RECURSIVE Runs(_)
Runs(s) == IF Over(s) THEN {s.log} ELSE
   UNION ({Runs(Started(s, w)) : w \in {x \in Workers : CanStart(s, x)}} \cup {Runs(Finished(s, w)) : w \in {x \in Workers : CanFinish(s, x)}})
=============================================================================
