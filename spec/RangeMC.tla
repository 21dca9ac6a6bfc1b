------------------------------ MODULE RangeMC ------------------------------
(***************************************************************************)
(* Design of range decoding on an abstract grid: boundaries at even        *)
(* positions 2..2N+2, bin i = [2i, 2i+2), mean at 2i+1; some bins occupied.*)
(* One behaviour = user writes two limits, decode, decode the result again.*)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt
CONSTANTS N, Inf
VARIABLES occ, lims, snap, res, res2, pc
vars == <<occ, lims, snap, res, res2, pc>>
Tokens == {[k |-> "b", v |-> n] : n \in -(N+1)..(N+1)} \cup {[k |-> "v", v |-> x] : x \in (0..(2*N+4)) \cup {Inf}}
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
First == LET m == CHOOSE x \in occ : \A y \in occ : x <= y IN m
Last  == CHOOSE x \in occ : \A y \in occ : y <= x
Bins == First..Last                     \* existing bins: from first to last occupied
Ref(n) == LET s == SortedSeq(occ) c == Len(s) m == IF n > c THEN c ELSE IF n < -c THEN -c ELSE n
          IN IF m >= 1 THEN s[m] ELSE IF m = 0 THEN s[1] ELSE s[c+1+m]
Val(t) == IF t.k = "b" THEN 2*Ref(t.v)+1 ELSE t.v
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
Down(x) == IF x = 0 THEN 0 ELSE LET c == {2*i : i \in Bins} \cap (-1..x) IN IF c = {} THEN 2*First ELSE MaxS(c)
Up(x) == IF x > 2*Last+2 THEN x ELSE MinS({2*i+2 : i \in Bins} \cap (x..Inf))
Decode(l, sn) == LET v0 == Val(l[1]) w == Val(l[2]) v1 == IF w < v0 THEN v0 ELSE w
                     s0 == sn \/ l[1].k = "b" s1 == sn \/ l[2].k = "b"
                 IN <<IF s0 THEN Down(v0) ELSE v0, IF s1 THEN Up(v1) ELSE v1>>
Init == /\ occ \in (SUBSET (1..N)) \ {{}} /\ snap \in BOOLEAN /\ lims = <<>> /\ res = <<>> /\ res2 = <<>> /\ pc = "write"
Write == pc = "write" /\ \E a, b \in Tokens : lims' = <<a, b>> /\ pc' = "decode" /\ UNCHANGED <<occ, snap, res, res2>>
Dec == pc = "decode" /\ res' = Decode(lims, snap) /\ pc' = "again" /\ UNCHANGED <<occ, lims, snap, res2>>
Again == pc = "again" /\ res2' = Decode(<<[k |-> "v", v |-> res[1]], [k |-> "v", v |-> res[2]]>>, TRUE) /\ pc' = "done" /\ UNCHANGED <<occ, lims, snap, res>>
Next == Write \/ Dec \/ Again
Spec == Init /\ [][Next]_vars
Ordered == pc \in {"again","done"} => res[1] <= res[2]
Outward == (pc = "done" /\ snap) => /\ (res[1] <= Val(lims[1]) \/ res[1] = 2*First) /\ res[2] >= Val(lims[2])
Idempotent == (pc = "done" /\ snap) => res2 = res
\* a bin reference is the same as writing any diameter inside that bin with snapping
RefIsBin == (pc = "done" /\ lims[1].k = "b") => /\ res[1] = 2*Ref(lims[1].v)
                                               /\ res[1] = Down(2*Ref(lims[1].v)) /\ res[1] = Down(2*Ref(lims[1].v) + 1)
\* nothing selected by the user is dropped: every occupied bin whose mean is inside the written limits is inside the result
KeepsSelection == (pc = "done") => \A i \in occ : (Val(lims[1]) <= 2*i+1 /\ 2*i+1 <= Val(lims[2])) => (res[1] <= 2*i+1 /\ 2*i+1 <= res[2])
Exact == (pc = "done" /\ ~snap /\ lims[1].k = "v" /\ lims[2].k = "v") => res[1] = lims[1].v /\ res[2] >= lims[2].v
=============================================================================
