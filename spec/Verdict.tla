------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Trace validation skeleton.  A trace is an ndjson file of events of the  *)
(* real code.  The root module of a trace check provides (through its cfg) *)
(*   Judge(st, e)  the sequence of clauses the specification states about  *)
(*                 event e in specification state st, each                 *)
(*                 [n |-> name, ok |-> BOOLEAN]                            *)
(*   Step(st, e)   the specification state after e                         *)
(*   St0           the initial specification state                        *)
(* The verdict is total: an event that contradicts a clause is recorded in *)
(* `bad' (line, clause) and the rest of the trace is still checked; the    *)
(* last action writes verdict and clause counts.                           *)
(***************************************************************************)
EXTENDS Nums, FiniteSets, TLC, Json, IOUtils
CONSTANTS Judge(_,_), Step(_,_), St0
VARIABLES l, st, bad, cov
vars == <<l, st, bad, cov>>

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

C(name, ok) == <<[n |-> name, ok |-> ok]>>      \* one clause
If(cond, cs) == IF cond THEN cs ELSE <<>>       \* clauses that only apply when cond
RECURSIVE FlatN(_,_)
FlatN(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatN(q, i+1)
Flat(q) == FlatN(TLCEval(q), 1)

Has(r, f) == IsRec(r) /\ f \in DOMAIN r
NoStep(s, e) == s                                \* events judged one by one

Init == l = 1 /\ st = St0 /\ bad = <<>> /\ cov = [x \in {} |-> 0]

Names(cs) == {cs[i].n : i \in DOMAIN cs}
AddCov(c, cs) == LET nm == Names(cs) IN
   [x \in DOMAIN c \cup nm |-> (IF x \in DOMAIN c THEN c[x] ELSE 0)
                              + Cardinality({i \in DOMAIN cs : cs[i].n = x})]
Fails(cs) == SelectSeq(cs, LAMBDA c : ~c.ok)

Attempt(a, b) == a                               \* a, or b where a has no value (VerdictOverrides.java): ill-typed events
Validate ==
  /\ l <= Len(Trace)
  /\ \E cs \in {Attempt(TLCEval(Judge(st, Trace[l])), C("IllTyped", FALSE))} :      \* (bound, so evaluated once)
     \E f \in {Fails(cs)} :
        /\ bad' = bad \o [i \in 1..Len(f) |-> <<l, f[i].n>>]
        /\ cov' = TLCEval(AddCov(cov, cs))
        /\ st' = Attempt(TLCEval(Step(st, Trace[l])), st)
  /\ l' = l + 1

Done ==
  /\ l = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VERDICT_FILE, [n |-> Len(Trace), bad |-> bad, cov |-> cov])
  /\ l' = l + 1 /\ UNCHANGED <<st, bad, cov>>

Next == Validate \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
