-------------------------------- MODULE T21 --------------------------------
(* C21: histories of randomness analyses of the real code, run whole, killed or interrupted, against RaStore *)
EXTENDS Verdict, Reader, RaStore
S0 == Empty
\* ---- a result file: measure -> [T, bins, lists]
IsStruct(v) == v.k = "struct"
MeasureNames == {"m2cnd", "sdaa"}
HasM(es, m) == IsStruct(One(es, m))
Inner(es, m) == One(es, m).entries
TrialsOf(es, m) == LET t == One(Inner(es, m), "trials") IN [bins |-> Tail(t.tags), index |-> Col(t, "index"), lists |-> [k \in 1..(Len(t.tags)-1) |-> [j \in 1..Len(t.rows) |-> t.rows[j][k+1]]]]
TOf(es, m) == StrInt(ScalarOf(Inner(es, m), "n_trials"))
StoreOf(es) == [m \in {x \in MeasureNames : HasM(es, x)} |-> TOf(es, m)]
Expected(i, m) == SelectSeq([k \in 1..Len(i.bins) |-> IF i.bins[k].n >= (IF m = "m2cnd" THEN 3 ELSE 4) THEN i.bins[k].key ELSE ""], LAMBDA x : x # "")
Ref(refs, m, T, b) == LET k == CHOOSE k \in 1..Len(refs) : refs[k].measure = m /\ refs[k].T = T /\ refs[k].bin = b IN refs[k].list
HasRef(refs, m, T, b) == \E k \in 1..Len(refs) : refs[k].measure = m /\ refs[k].T = T /\ refs[k].bin = b
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IsInt(t) == t # "" /\ \A k \in 1..Len(StrChars(t)) : StrChars(t)[k] \in Digits
\* nothing cut short: every table closed with the rows and columns it says
Full(v, tag1) == v.k = "table" /\ v.tags[1] = tag1 /\ \A r \in 1..Len(v.rows) : \A c \in 1..Len(v.rows[r]) : v.rows[r][c] # ""
WholeFile(es) ==
  /\ Full(One(es, "n_sigma"), "bin") /\ \E m \in MeasureNames : HasM(es, m)
  /\ \A k \in 1..Len(es) : es[k][1] \in MeasureNames => es[k][2].k = "struct" /\ IsInt(ScalarOf(es[k][2].entries, "n_trials")) /\ Full(One(es[k][2].entries, "trials"), "index")
  /\ {One(es, "n_sigma").tags[k] : k \in 2..Len(One(es, "n_sigma").tags)} = {m \in MeasureNames : HasM(es, m)}
WellFormed(es, m) == LET q == One(Inner(es, m), "trials") IN q.k = "table" /\ q.tags[1] = "index" /\ \A r \in 1..Len(q.rows) : \A c \in 1..Len(q.rows[r]) : IsNumber(q.rows[r][c])
\* every measure in the file is one run of the trials it says, whole
FileClauses(i, refs, es) ==
  Flat([k \in 1..2 |-> LET m == <<"m2cnd", "sdaa">>[k] IN If(HasM(es, m),
    C("WellFormed", WellFormed(es, m)) \o If(WellFormed(es, m), LET t == TLCEval(TrialsOf(es, m)) T == TOf(es, m) IN
      C("AnalysedBinsStored", t.bins = Expected(i, m)) \o
      C("TrialNumberStored", \A b \in 1..Len(t.bins) : Len(t.lists[b]) = T) \o
      C("IndexStored", t.bins # <<>> => t.index = [j \in 1..T |-> StrOfInt(j-1)]) \o
      C("OneRun", \A b \in 1..Len(t.bins) : HasRef(refs, m, T, t.bins[b]) /\ RSeqClose(Numbers(t.lists[b]), Ref(refs, m, T, t.bins[b]), "2e-6", "1e-300"))))])
\* scores: (value - mean) / standard deviation of the stored trials, to the figures written; a line for a measure without the bin
Near4(a, b, sd, mn) == RNear(a, b, RAdd(RMul("6e-4", RMax(RAbs(a), RAbs(b))), RAdd("1e-9", RMul("2e-6", RDiv(RAbs(mn), sd)))))
ScoreClauses(i, es, mem) ==
  LET t == One(es, "n_sigma") IN
  C("ScoreTable", t.k = "table" /\ t.tags[1] = "bin") \o
  If(t.k = "table" /\ t.tags[1] = "bin",
    C("ScoreBins", Col(t, "bin") = SelectSeq([k \in 1..Len(i.bins) |-> IF \E m \in DOMAIN StoreOf(es) : \E x \in 1..Len(Expected(i, m)) : Expected(i, m)[x] = i.bins[k].key THEN i.bins[k].key ELSE ""], LAMBDA x : x # "")) \o
    C("ScoreMeasures", {t.tags[k] : k \in 2..Len(t.tags)} = DOMAIN StoreOf(es)) \o
    Flat([k \in 1..Len(mem) |-> LET m == mem[k].measure j == ColAt(t, m) IN
       C("ScoresOfMeasure", j > 0) \o If(j > 0, Flat([r \in 1..Len(t.rows) |->
         LET b == t.rows[r][1] h == {x \in 1..Len(mem[k].bins) : mem[k].bins[x].key = b} IN
         IF h = {} THEN C("NoScore", t.rows[r][j] = "-")
         ELSE LET q == mem[k].bins[CHOOSE x \in h : TRUE] mn == RMean(q.list) sd == RStd(q.list) IN
              C("Score", IsNumber(t.rows[r][j]) /\ Near4(t.rows[r][j], RDiv(RSub(q.m0, mn), sd), sd, mn))])) ]))
\* what is in memory and what is read again is what is in the file
SameLists(es, mem, tol, cl) == C(cl, {mem[k].measure : k \in 1..Len(mem)} = DOMAIN StoreOf(es) /\ \A k \in 1..Len(mem) : LET m == mem[k].measure t == TrialsOf(es, m) IN
   mem[k].T = TOf(es, m) /\ t.bins = [x \in 1..Len(mem[k].bins) |-> mem[k].bins[x].key] /\ \A x \in 1..Len(t.bins) : RSeqClose(Numbers(t.lists[x]), mem[k].bins[x].list, tol, "1e-300"))
At1(fs, p) == LET m == {k \in 1..Len(fs) : fs[k].place = p} IN IF m = {} THEN 0 ELSE CHOOSE k \in m : TRUE
Prefer(fs, a, b) == IF At1(fs, a) > 0 THEN At1(fs, a) ELSE At1(fs, b)
CountClauses(fs, es, s, i) ==
  LET k == Prefer(fs, i.here, i.beside) IN
  IF k = 0 THEN C("CountHasNone", s.count.n_sigma = <<>>)
  ELSE LET t == One(es[k], "n_sigma") so == StoreOf(es[k]) IN
    IF t.rows = <<>> THEN C("CountHasNone", s.count.n_sigma = <<>>)
    ELSE C("CountReads", Len(s.count.n_sigma) = Len(t.tags) /\ \A c \in 1..Len(t.tags) : \E x \in 1..Len(s.count.n_sigma) : s.count.n_sigma[x].name = t.tags[c] /\ s.count.n_sigma[x].values = Col(t, t.tags[c])) \o
         C("CountTrials", s.count.n_trials = (IF DOMAIN so = MeasureNames THEN <<StrOfInt(so["m2cnd"]), StrOfInt(so["sdaa"])>> ELSE LET m == CHOOSE m \in DOMAIN so : TRUE IN <<StrOfInt(so[m])>>))
\* ---- one step of a history
Sorted(q) == {q[k] : k \in 1..Len(q)}
Disk(fs, es) == [p \in {fs[k].place : k \in 1..Len(fs)} |-> StoreOf(es[At1(fs, p)])]
StepClauses(i, refs, d, a, s, fs, es, after) ==
  LET n == Len(s.order) all == Len(a.measures)
      js == IF s.done THEN {all} ELSE IF s.phase = "computing" THEN {n - 1} ELSE {j \in {n - 1, n} : j >= 0}
  IN C("Completes", a.crash.mode # "none" \/ s.done) \o
     If(s.done, C("MeasuresAsked", Sorted(s.order) = Sorted(a.measures) /\ n = all)) \o
     C("EachMeasureOnce", Cardinality(Sorted(s.order)) = n /\ Sorted(s.order) \subseteq Sorted(a.measures)) \o
     C(IF s.done THEN "DiskAfterRun" ELSE IF s.phase = "computing" THEN "DiskAfterLossComputing" ELSE "DiskAfterLoss", \E j \in js : after = Finished(d, a.place, i.beside, s.order, a.T, j)) \o
     C("NothingLost", \A p \in DOMAIN d : p \in DOMAIN after /\ \A m \in DOMAIN d[p] : m \in DOMAIN after[p] /\ after[p][m] >= d[p][m]) \o
     Flat([k \in 1..Len(fs) |-> FileClauses(i, refs, es[k])]) \o
     If(s.done, LET k == At1(fs, a.place) IN C("Written", k > 0) \o If(k > 0, ScoreClauses(i, es[k], s.mem) \o SameLists(es[k], s.mem, "2e-6", "MemoryStored") \o SameLists(es[k], s.back, "1e-12", "ReadsBack")) \o CountClauses(fs, es, s, i))
RECURSIVE Walk(_,_,_,_)
Walk(i, o, d, k) ==
  IF k > Len(o.steps) THEN <<>>
  ELSE LET s == o.steps[k] es == TLCEval([x \in 1..Len(s.files) |-> TLCEval(Parsed(s.files[x].text))]) IN
       IF \E x \in 1..Len(s.files) : ~WholeFile(es[x]) THEN C("AlwaysWhole", FALSE)
       ELSE LET after == TLCEval(Disk(s.files, es)) IN
       C("AlwaysWhole", TRUE) \o TLCEval(StepClauses(i, o.refs, d, i.steps[k], s, s.files, es, after)) \o Walk(i, o, after, k+1)
J(st_, e) == C("Ran", e.exc = "") \o If(e.exc = "", C("AllSteps", Len(e.out.steps) = Len(e.in.steps)) \o Walk(e.in, e.out, Empty, 1))
=============================================================================
