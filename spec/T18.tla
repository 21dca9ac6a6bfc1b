-------------------------------- MODULE T18 --------------------------------
(***************************************************************************)
(* C18: trial lists of randomness analyses of the real code.  Specification*)
(* state: for every (count, measure, bin, number of craters, trials) seen  *)
(* the list of trials it has; any later analysis of the same has the same. *)
(***************************************************************************)
EXTENDS Verdict
S0 == [x \in {} |-> <<>>]
\* runs: sequence of [measure, bin, n, trials, list]
Key(r) == r.measure \o " " \o r.bin \o " " \o StrOfInt(r.n) \o " " \o StrOfInt(r.trials)
Known(s, r) == Key(r) \in DOMAIN s
S(s, e) == IF e.exc # "" THEN s ELSE
  LET q == e.out.runs ks == {Key(q[k]) : k \in 1..Len(q)} IN
  [x \in DOMAIN s \cup ks |-> IF x \in DOMAIN s THEN s[x] ELSE LET k == CHOOSE k \in 1..Len(q) : Key(q[k]) = x IN q[k].list]
One(s, q, k) ==
  LET r == q[k] n == Len(r.list) sorted == RSort(r.list) IN
  C("AsManyAsAsked", n = r.trials) \o
  C("Numbers", \A x \in 1..n : RIsFinite(r.list[x])) \o
  C("TrialsDiffer", \A x \in 1..(n-1) : RLt(sorted[x], sorted[x+1])) \o
  If(Known(s, r), C("SameTrials", RSeqClose(r.list, s[Key(r)], "1e-9", "1e-300"))) \o
  C("SameWithin", \A m \in 1..(k-1) : Key(q[m]) = Key(r) => RSeqClose(r.list, q[m].list, "1e-9", "1e-300")) \o
  \* other analyses draw other configurations
  C("OthersDiffer", \A m \in 1..(k-1) : Key(q[m]) # Key(r) /\ q[m].measure = r.measure /\ q[m].bin # r.bin => q[m].list # r.list)
J(s, e) ==
  C("Ran", e.exc = "") \o If(e.exc = "", LET q == e.out.runs IN
    C("AllAnalysed", Len(q) = e.in.expect) \o Flat([k \in 1..Len(q) |-> One(s, q, k)]))
=============================================================================
