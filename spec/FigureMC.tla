------------------------------ MODULE FigureMC ------------------------------
(* Drawing and legend of a set of overplots: every shown overplot is drawn once, earlier ones in front, the legend lists
   those with something to say in the order of the command, whatever codes are chosen. *)
EXTENDS Figure, FiniteSets
CONSTANTS MaxPlots, Careless
VARIABLES plots, codes, todo, canvas, legend
vars == <<plots, codes, todo, canvas, legend>>
Kinds == {"data", "c-fit"}
Plot == [type : Kinds, hide : {0, 1}, binning : {"x2"}]
Pair(p, k) == Len(Codes(p, LAMBDA x : x \in codes, FALSE)) > 0
Init == /\ plots \in UNION {[1..n -> Plot] : n \in 1..MaxPlots}
        /\ codes \in SUBSET {"n", "c"}
        /\ todo = Len(plots) /\ canvas = <<>> /\ legend = <<>>
DrawOne == /\ todo > 0
           /\ canvas' = IF Shown(plots[todo], "cumulative") THEN canvas \o DrawItems(plots[todo], todo, Pair(plots[todo], todo)) ELSE canvas
           /\ todo' = todo - 1
           /\ UNCHANGED <<plots, codes, legend>>
Labelled == SelectSeq(canvas, LAMBDA x : x.label)
Rev(q) == [j \in DOMAIN q |-> q[Len(q) + 1 - j]]
\* rows of fits are only kept when the codes say something about fits
Compose == /\ todo = 0 /\ legend = <<>>
           /\ legend' = <<Rev(Rows(Labelled, Careless /\ "c" \notin codes))>>
           /\ UNCHANGED <<plots, codes, todo, canvas>>
Next == DrawOne \/ Compose
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Want == SelectSeq([k \in DOMAIN plots |-> k], LAMBDA k : Shown(plots[k], "cumulative") /\ Pair(plots[k], k))
LegendComplete == legend # <<>> => legend[1] = Want
OnceEach == todo = 0 => \A k \in DOMAIN plots : Cardinality({j \in DOMAIN canvas : canvas[j].plot = k /\ canvas[j].kind = "marks"}) = (IF plots[k].hide = 1 THEN 0 ELSE 1)
EarlierInFront == \A i, j \in DOMAIN canvas : i < j => canvas[i].plot >= canvas[j].plot
HiddenAbsent == \A j \in DOMAIN canvas : plots[canvas[j].plot].hide = 0
Finishes == <>(legend # <<>>)
=============================================================================
