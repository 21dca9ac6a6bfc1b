----------------------------- MODULE ExchangeMC -----------------------------
(***************************************************************************)
(* Directories reached by merging and converting.  A count is a bag of     *)
(* craters, an area and whether its perimeter is known; `of' keeps which   *)
(* original counts it descends from.  Drop = TRUE merges as sets instead   *)
(* of bags (negative control).                                             *)
(***************************************************************************)
EXTENDS Exchange, FiniteSets
CONSTANTS Depth, Drop
VARIABLES dir, steps
vars == <<dir, steps>>
Craters == {"x", "y", "z"}
Empty == [c \in Craters |-> 0]
Plus(a, b) == [c \in Craters |-> a[c] + b[c]]
B(x, y, z) == [c \in Craters |-> IF c = "x" THEN x ELSE IF c = "y" THEN y ELSE z]
Originals == [f \in {"a.diam", "b.scc", "c_CRATER.shp", "p.stat"} |->
  CASE f = "a.diam" -> [cr |-> B(2, 1, 0), area |-> 3, per |-> FALSE]
    [] f = "b.scc" -> [cr |-> B(1, 0, 1), area |-> 5, per |-> TRUE]
    [] f = "c_CRATER.shp" -> [cr |-> B(0, 2, 1), area |-> 7, per |-> TRUE]
    [] OTHER -> [cr |-> Empty, area |-> 11, per |-> FALSE]]
Names == DOMAIN Originals
Init == steps = 0 /\ dir = [f \in Names |-> [kind |-> Ext(f), cr |-> Originals[f].cr, area |-> Originals[f].area, per |-> Originals[f].per, of |-> [g \in Names |-> IF g = f THEN 1 ELSE 0]]]
RECURSIVE Fold(_, _, _)
Sum(a, b) == [kind |-> "diam", cr |-> IF Drop THEN [c \in Craters |-> IF a.cr[c] + b.cr[c] > 0 THEN 1 ELSE 0] ELSE Plus(a.cr, b.cr), area |-> a.area + b.area,
              per |-> a.per /\ b.per, of |-> [g \in Names |-> a.of[g] + b.of[g]]]
Fold(d, fs, k) == IF k = 1 THEN d[fs[1]] ELSE Sum(Fold(d, fs, k-1), d[fs[k]])
Result(d, cmd) == IF cmd.op = "merge" THEN [Fold(d, cmd.fs, Len(cmd.fs)) EXCEPT !.kind = "diam"] ELSE [d[cmd.fs[1]] EXCEPT !.kind = cmd.fmt]
Here == DOMAIN dir
Merges == {[op |-> "merge", fs |-> fs, out |-> o] : fs \in {<<a, b>> : a, b \in Here} \cup {<<a>> : a \in Here}, o \in {"", "a", "m"}}
Conversions == {[op |-> "convert", fmt |-> t, fs |-> <<f>>, out |-> o, dir |-> FALSE, input |-> ""] : t \in {"stat", "scc", "shp", "diam"}, f \in Here, o \in {"", "x"}}
Do(cmd) == /\ steps' = steps + 1
           /\ IF Accepted(cmd, Here) THEN dir' = [f \in Here \cup {Main(cmd)} |-> IF f = Main(cmd) THEN Result(dir, cmd) ELSE dir[f]] ELSE UNCHANGED dir
Next == steps < Depth /\ \E cmd \in Merges \cup Conversions : Do(cmd)
Spec == Init /\ [][Next]_vars
\* every file is the union of the original counts it descends from, with their areas

Total(of, P(_), S) == of["a.diam"] * P("a.diam") + of["b.scc"] * P("b.scc") + of["c_CRATER.shp"] * P("c_CRATER.shp") + of["p.stat"] * P("p.stat")
Conserved == \A f \in Here : LET d == dir[f] IN
  /\ \A c \in Craters : LET P(g) == Originals[g].cr[c] IN d.cr[c] = Total(d.of, P, Names)
  /\ LET P(g) == Originals[g].area IN d.area = Total(d.of, P, Names)
  /\ d.per = (\A g \in Names : d.of[g] > 0 => Originals[g].per)
\* what a file is shows in its name; positions are never made up; a binned table goes nowhere
Kinds == \A f \in Here : dir[f].kind = Ext(f)
Positions == \A f \in Here : Ext(f) \in Spatials => \E g \in {"b.scc", "c_CRATER.shp"} : dir[f].of = [h \in Names |-> IF h = g THEN 1 ELSE 0]
BinnedEnds == \A f \in Here : f # "p.stat" => dir[f].of["p.stat"] = 0
\* a merge does not depend on the order of its inputs, nor on merging in steps
OrderFree == \A a, b \in Here : {Ext(a), Ext(b)} \subseteq Lists => Sum(dir[a], dir[b]) = Sum(dir[b], dir[a])
Grouped == \A a, b, c \in Here : {Ext(a), Ext(b), Ext(c)} \subseteq Lists => Sum(Sum(dir[a], dir[b]), dir[c]) = Sum(dir[a], Sum(dir[b], dir[c]))
OnlyOutput == [][\E cmd \in Merges \cup Conversions : \A f \in Here : dir'[f] # dir[f] => f = Main(cmd)]_vars
=============================================================================
