-------------------------------- MODULE T02 --------------------------------
(***************************************************************************)
(* Trace of one count object: "load" (its stored data and the answers of   *)
(* freshly loaded objects to every query of the history), then one "query" *)
(* event per query on the shared object.  Specification state: the fresh   *)
(* answers and the data of the object being traced.                        *)
(***************************************************************************)
EXTENDS Verdict
S0 == [fresh |-> <<>>, data |-> <<>>]
\* an answer is [exc, num, txt]: numbers must agree to 1e-9, texts exactly
SameNum(a, b) == RSeqClose(a, b, "1e-9", "1e-300")
Same(a, b) == a.exc = b.exc /\ SameNum(a.num, b.num) /\ a.txt = b.txt
SameData(a, b) == SameNum(a.num, b.num) /\ a.txt = b.txt
RECURSIVE Walk(_,_,_)
Walk(q, o, k) == IF k > Len(q) THEN <<>> ELSE
    C("AnswerAsFresh", Same(q[k].ans, o.fresh[q[k].key])) \o
    C("DataUnchanged", SameData(q[k].data, o.data)) \o Walk(q, o, k+1)
J(s, e) == LET o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
     C("AllAnswered", Len(o.seq) = Len(e.in.queries)) \o
     C("FreshDataUnchanged", \A k \in DOMAIN o.freshdata : SameData(o.freshdata[k], o.data)) \o
     Walk(o.seq, o, 1))
=============================================================================
