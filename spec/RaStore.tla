------------------------------ MODULE RaStore ------------------------------
(***************************************************************************)
(* Results of randomness analyses on disk.  A store is a function from the *)
(* measures it has to the number of trials they were analysed with; a disk *)
(* is a function from the places that hold a result file to stores.        *)
(* An analysis reads the place it will write to, or else the place beside  *)
(* the count; takes the measures asked for one at a time, keeping a stored *)
(* one with at least the trials asked for and replacing it whole otherwise;*)
(* and writes everything it has after each.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
Empty == [x \in {} |-> 0]
Keeps(store, m, T) == m \in DOMAIN store /\ store[m] >= T
Analysed(store, m, T) == IF Keeps(store, m, T) THEN store ELSE [x \in DOMAIN store \cup {m} |-> IF x = m THEN T ELSE store[x]]
RECURSIVE AllOf(_,_,_,_)
AllOf(store, ms, T, j) == IF j = 0 THEN store ELSE Analysed(AllOf(store, ms, T, j-1), ms[j], T)
Loaded(disk, out, beside) == IF out \in DOMAIN disk THEN disk[out] ELSE IF beside \in DOMAIN disk THEN disk[beside] ELSE Empty
Put(disk, p, s) == [x \in DOMAIN disk \cup {p} |-> IF x = p THEN s ELSE disk[x]]
\* the disk when the first j measures of a run are finished
Finished(disk, out, beside, ms, T, j) == IF j = 0 THEN disk ELSE Put(disk, out, AllOf(Loaded(disk, out, beside), ms, T, j))
=============================================================================
