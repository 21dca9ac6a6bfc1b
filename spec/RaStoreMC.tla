----------------------------- MODULE RaStoreMC -----------------------------
(***************************************************************************)
(* Histories of analyses that may stop at any point.  The trials of each   *)
(* bin are kept as the run they come from, so that a mixture shows; a file *)
(* is whole or torn.  Atomic = FALSE is writing in place.                  *)
(***************************************************************************)
EXTENDS RaStore, FiniteSets
CONSTANTS Measures, Trials, Bins, Runs, Atomic
VARIABLES disk, temp, mem, pc, ask, bin, before, runs
vars == <<disk, temp, mem, pc, ask, bin, before, runs>>
Places == {"here", "other", "beside"}
\* contents of a file: measure -> bin -> <<number of trials, run>>, or torn
None == [x \in {} |-> 0]
Torn == [torn |-> TRUE]
Whole(f) == f # Torn
Store(f) == [m \in DOMAIN f |-> (f[m][CHOOSE b \in Bins : TRUE])[1]]
Abstract(d) == [p \in DOMAIN d |-> Store(d[p])]
Orders == UNION {{<<a, b>> : b \in Measures \ {a}} : a \in Measures} \cup {<<a>> : a \in Measures}
Idle == [ms |-> <<>>, T |-> 0, out |-> "here", k |-> 1]
Init == disk = None /\ temp = None /\ mem = None /\ pc = "idle" /\ ask = Idle /\ bin = {} /\ before = None /\ runs = 0
Start == /\ pc = "idle" /\ runs < Runs
         /\ \E ms \in Orders, T \in Trials, out \in {"here", "other", "beside"} : ask' = [ms |-> ms, T |-> T, out |-> out, k |-> 1]
         /\ mem' = IF ask'.out \in DOMAIN disk THEN disk[ask'.out] ELSE IF "beside" \in DOMAIN disk THEN disk["beside"] ELSE None
         /\ before' = disk /\ runs' = runs + 1 /\ pc' = "measure" /\ UNCHANGED <<disk, temp, bin>>
M == ask.ms[ask.k]
Old == M \in DOMAIN mem /\ (mem[M][CHOOSE b \in Bins : TRUE])[1] >= ask.T
Begin == /\ pc = "measure"
         /\ IF Old THEN pc' = "write" /\ UNCHANGED <<mem, bin>>
            ELSE pc' = "bins" /\ bin' = Bins /\ mem' = [x \in DOMAIN mem \ {M} |-> mem[x]]
         /\ UNCHANGED <<disk, temp, ask, before, runs>>
Compute == /\ pc = "bins" /\ bin # {}
           /\ \E b \in bin : /\ bin' = bin \ {b}
                             /\ mem' = [x \in DOMAIN mem \cup {M} |-> IF x # M THEN mem[x] ELSE
                                          [y \in {b} \cup (IF M \in DOMAIN mem THEN DOMAIN mem[M] ELSE {}) |-> IF y = b THEN <<ask.T, runs>> ELSE mem[M][y]]]
           /\ UNCHANGED <<disk, temp, pc, ask, before, runs>>
Computed == pc = "bins" /\ bin = {} /\ pc' = "write" /\ UNCHANGED <<disk, temp, mem, ask, bin, before, runs>>
Write == /\ pc = "write" /\ pc' = "half"
         /\ IF Atomic THEN temp' = Torn /\ UNCHANGED disk ELSE disk' = [x \in DOMAIN disk \cup {ask.out} |-> IF x = ask.out THEN Torn ELSE disk[x]] /\ UNCHANGED temp
         /\ UNCHANGED <<mem, ask, bin, before, runs>>
Written == /\ pc = "half"
           /\ IF Atomic THEN temp' = mem /\ pc' = "replace" /\ UNCHANGED disk
              ELSE disk' = [disk EXCEPT ![ask.out] = mem] /\ pc' = "next" /\ UNCHANGED temp
           /\ UNCHANGED <<mem, ask, bin, before, runs>>
Replace == /\ pc = "replace" /\ pc' = "next" /\ disk' = [x \in DOMAIN disk \cup {ask.out} |-> IF x = ask.out THEN temp ELSE disk[x]]
           /\ temp' = None /\ UNCHANGED <<mem, ask, bin, before, runs>>
Following == /\ pc = "next"
             /\ IF ask.k < Len(ask.ms) THEN ask' = [ask EXCEPT !.k = @ + 1] /\ pc' = "measure" /\ UNCHANGED mem
                ELSE ask' = Idle /\ pc' = "idle" /\ mem' = None
             /\ UNCHANGED <<disk, temp, bin, before, runs>>
Crash == pc # "idle" /\ pc' = "idle" /\ mem' = None /\ ask' = Idle /\ bin' = {} /\ UNCHANGED <<disk, temp, before, runs>>
Next == Start \/ Begin \/ Compute \/ Computed \/ Write \/ Written \/ Replace \/ Following \/ Crash
Spec == Init /\ [][Next]_vars
AlwaysWhole == \A p \in DOMAIN disk : Whole(disk[p])
\* all bins of a measure come from one run
Unmixed == AlwaysWhole => \A p \in DOMAIN disk : \A m \in DOMAIN disk[p] : DOMAIN disk[p][m] = Bins /\ \A b, c \in Bins : disk[p][m][b] = disk[p][m][c]
\* while an analysis runs, the disk is as after the measures it has finished
InStep == pc \notin {"idle"} /\ Atomic =>
   Abstract(disk) = Finished(Abstract(before), ask.out, "beside", ask.ms, ask.T, IF pc = "next" THEN ask.k ELSE ask.k - 1)
\* nothing finished is lost: no place ever has less
Grows == [][\A p \in DOMAIN disk : p \in DOMAIN disk' /\ \A m \in DOMAIN disk[p] : m \in DOMAIN disk'[p] /\ Store(disk[p])[m] <= Store(disk'[p])[m]]_vars
=============================================================================
