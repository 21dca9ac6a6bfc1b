---------------------------- MODULE MonteCarloMC ----------------------------
(* every distribution of the trials over the workers, every order of finishing *)
EXTENDS MonteCarlo
VARIABLE s
Init == s = Start0
Next == \E w \in Workers : (CanStart(s, w) /\ s' = Started(s, w)) \/ (CanFinish(s, w) /\ s' = Finished(s, w))
Spec == Init /\ [][Next]_s /\ WF_s(Next)
Busy == {t \in Trials : \E w \in Workers : s.run[w] = t}
Handed == 1..(s.next - 1)
Once == \A w, v \in Workers : w # v /\ s.run[w] # 0 => s.run[w] # s.run[v]
Distinct == \A t, u \in Handed : t # u => s.res[t] # s.res[u]
\* what a trial sees depends on its index alone, not on who ran it or what ran before
ScheduleFree == \A t \in Handed : s.res[t] = <<"bin", "number", t>>
AllDone == <>Over(s)
=============================================================================
