------------------------------- MODULE Figure -------------------------------
(***************************************************************************)
(* What the figure of a crater plot shows of its overplots.                *)
(* An overplot is a record with at least type, hide, binning; its analysis *)
(* (points, errors, constant) is that of the other modules.                *)
(***************************************************************************)
EXTENDS Prod
FitTypes == {"c-fit", "d-fit", "poisson", "b-poisson"}
IsFit(p) == p.type \in FitTypes
\* unbinned data have no density per bin: they appear in cumulative plots only
Shown(p, pres) == p.hide = 0 /\ ~(p.binning = "none" /\ pres # "cumulative")
\* legend codes that say something about an overplot
Codes(p, has(_), perimeter) ==
  IF IsFit(p) THEN SelectSeq(<<"c", "r", "N">>, LAMBDA x : has(x))
  ELSE SelectSeq(<<"n", "a", "p">>, LAMBDA x : has(x) /\ (x = "p" => perimeter))

(* The drawing process: overplots from the last to the first; each fit is a curve followed by marks.  The legend is
   made from the labelled items drawn, the curve of a fit sharing the row of its marks. *)
DrawItems(p, k, labelled) == (IF IsFit(p) THEN <<[kind |-> "curve", plot |-> k, label |-> TRUE]>> ELSE <<>>)
                             \o <<[kind |-> "marks", plot |-> k, label |-> labelled]>>
RECURSIVE Rows(_, _)
\* rows (of plots) from the items in drawing order; careless: a curve always takes the next labelled item as its marks
Rows(items, careless) ==
  IF items = <<>> THEN <<>>
  ELSE LET h == Head(items) t == Tail(items) IN
    IF h.kind = "curve"
    THEN IF careless THEN (IF t = <<>> THEN <<>> ELSE Rows(Tail(t), careless))
         ELSE Rows(t, careless)
    ELSE <<h.plot>> \o Rows(t, careless)
=============================================================================
