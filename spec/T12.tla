-------------------------------- MODULE T12 --------------------------------
(* C12: saved command files of the real code against CsFile *)
EXTENDS Verdict, CsFile
\* last value given for an option, else the default
GivenIx(opts, n) == {k \in 1..Len(opts) : opts[k][1] = n}
LastIx(opts, n) == CHOOSE k \in GivenIx(opts, n) : \A j \in GivenIx(opts, n) : j <= k
Taken(opts, n, dflt) == IF GivenIx(opts, n) = {} THEN dflt ELSE opts[LastIx(opts, n)][2]
Text(ws) == StrJoin(ws, " ")
Numeric == {"pt_size", "ref_diameter", "min_diameter", "n_samples", "sig_figs", "mu", "invert", "transparent", "tight"}
Dflt == [title |-> "", isochrons |-> "", legend |-> "fnacr", print_dimensions |-> "7.5x7.5", pt_size |-> "9.0", ref_diameter |-> 1, sig_figs |-> 3, mu |-> 1, invert |-> 0,
         transparent |-> 0, style |-> "natural", min_diameter |-> "0.15", n_samples |-> 200]
Same(k, v, w) == IF k \in Numeric THEN REq(v, w) ELSE v = w
TakenAs(set, opts, pres) ==
  /\ \A k \in (DOMAIN Dflt) \ {"legend"} : IF GivenIx(opts, k) = {} THEN Same(k, set[k], Dflt[k]) ELSE Same(k, set[k], Text(Taken(opts, k, <<>>)))
  /\ (GivenIx(opts, "legend") # {} => set.legend = Text(Taken(opts, "legend", <<>>)) \/ set.legend = Text(Taken(opts, "legend", <<>>)) \o "p")
  /\ (GivenIx(opts, "legend") = {} => set.legend = (IF pres = "sequence" THEN "A" ELSE "fnacr") \/ set.legend = "fnacrp")
  /\ \A k \in {"xrange", "yrange"} : GivenIx(opts, k) # {} /\ pres # "Hartmann" /\ ~set.scaled => LET q == Taken(opts, k, <<>>) IN REq(set[k][1], q[1]) /\ REq(set[k][2], q[2])
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
   CASE e.ev = "replay" ->
     (LET a == o.run b == o.again IN
      C("Runs", a.exit = "" /\ o.csname # "") \o
      If(a.exit = "" /\ o.csname # "",
        C("SettingsTaken", TakenAs(a.set, i.opts, a.pres)) \o
        C("FileDenotesCommand", WellFormed(o.cs) /\ Words(o.cs) = o.args) \o
        C("EditedDenotesSame", WellFormed(o.edited) /\ Words(o.edited) = o.args) \o
        C("Replays", b.exit = "") \o
        If(b.exit = "",
          C("SameSettings", b.set = a.set) \o
          C("SameOverplots", b.plots = a.plots) \o
          C("SameTable", b.rows = a.rows) \o
          C("SameFigures", b.figs = a.figs) \o
          C("SameFiles", b.files = SelectSeq(a.files, LAMBDA f : f # o.csname)) \o
          C("NotOverwritten", o.cskept))))
   [] e.ev = "include" ->
     (C("IncludeDenotes", WellFormed(i.text) /\ Words(i.text) = i.words) \o
      C("IncludeRuns", o.run.exit = o.spliced.exit) \o
      If(o.run.exit = "" /\ o.spliced.exit = "",
        C("IncludeSettings", o.run.set = o.spliced.set) \o
        C("IncludeOverplots", o.run.plots = o.spliced.plots) \o
        C("IncludeFiles", o.run.files = o.spliced.files /\ o.run.figs = o.spliced.figs))))
=============================================================================
