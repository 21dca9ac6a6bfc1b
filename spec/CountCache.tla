----------------------------- MODULE CountCache ----------------------------
(***************************************************************************)
(* C02: a crater count caches the histogram of the last binning used.      *)
(* State: cache (the style of the cached histogram), the stored craters.   *)
(* Every query names a style; the action Query rebuilds when the style     *)
(* differs (never for pre-binned counts) and answers from the cache.       *)
(* The answer function is left uninterpreted: <<query, histogram used>>.   *)
(* The same module enumerates the histories that are driven through the    *)
(* real code (hist is an observation variable, hidden by the VIEW in the   *)
(* exhaustive check).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Styles, Kinds, MaxLen
VARIABLES cache, prebinned, data, ans, hist
vars == <<cache, prebinned, data, ans, hist>>
Queries == Styles \X Kinds
Init == cache = "none yet" /\ prebinned \in BOOLEAN /\ data = "craters" /\ ans = <<>> /\ hist = <<>>
Used(q) == IF prebinned THEN "table" ELSE q[1]
\* decode_range / getplotdata / calculate_age of one style
Query(q) == /\ Len(hist) < MaxLen
            /\ LET c == IF prebinned THEN cache ELSE IF cache # q[1] THEN q[1] ELSE cache IN
               /\ cache' = c
               /\ ans' = <<q, IF prebinned THEN "table" ELSE c>>
            /\ hist' = Append(hist, q) /\ UNCHANGED <<prebinned, data>>
Next == \E q \in Queries : Query(q)
Spec == Init /\ [][Next]_vars
View == <<cache, prebinned, data, ans>>
Fresh(q) == <<q, Used(q)>>                     \* what a freshly loaded count answers
AnswerIsFresh == ans # <<>> => ans = Fresh(ans[1])
DataUnchanged == [][data' = data]_vars
=============================================================================
