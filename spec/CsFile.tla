------------------------------- MODULE CsFile -------------------------------
(***************************************************************************)
(* Saved command files: the text of a .cs file denotes a list of           *)
(* arguments.  Lines that are blank or begin with '#' are dropped, the     *)
(* rest is cut into words by a character machine (shell quoting).          *)
(***************************************************************************)
EXTENDS Nums, TLC
White == {" ", "\t", "\n", "\r"}
\* ---------------------------------------------------------------- the machine: [mode, word, open, out]
L0 == [mode |-> "ground", word |-> <<>>, open |-> FALSE, out |-> <<>>]
Put(s, c) == [s EXCEPT !.word = Append(@, c), !.open = TRUE]
Shut(s) == IF s.open THEN [s EXCEPT !.out = Append(@, s.word), !.word = <<>>, !.open = FALSE] ELSE s
LexStep(s, c) ==
  CASE s.mode = "ground" -> (IF c \in White THEN Shut(s)
                             ELSE IF c = "'" THEN [s EXCEPT !.mode = "single", !.open = TRUE]
                             ELSE IF c = "\"" THEN [s EXCEPT !.mode = "double", !.open = TRUE]
                             ELSE IF c = "\\" THEN [s EXCEPT !.mode = "escape", !.open = TRUE]
                             ELSE Put(s, c))
    [] s.mode = "single" -> (IF c = "'" THEN [s EXCEPT !.mode = "ground"] ELSE Put(s, c))
    [] s.mode = "double" -> (IF c = "\"" THEN [s EXCEPT !.mode = "ground"] ELSE IF c = "\\" THEN [s EXCEPT !.mode = "descape"] ELSE Put(s, c))
    [] s.mode = "escape" -> Put([s EXCEPT !.mode = "ground"], c)
    [] s.mode = "descape" -> (IF c \in {"\"", "\\"} THEN Put([s EXCEPT !.mode = "double"], c) ELSE Put(Put([s EXCEPT !.mode = "double"], "\\"), c))
RECURSIVE LexRun(_, _, _)
LexRun(s, q, i) == IF i > Len(q) THEN Shut(s) ELSE LexRun(TLCEval(LexStep(s, q[i])), q, i + 1)
LexChars(q) == LexRun(L0, q, 1)                    \* well formed iff it ends in mode "ground"
\* ---------------------------------------------------------------- lines
RECURSIVE FirstNonBlank(_, _)
FirstNonBlank(q, i) == IF i > Len(q) THEN "" ELSE IF q[i] \in White THEN FirstNonBlank(q, i + 1) ELSE q[i]
KeptLine(q) == FirstNonBlank(q, 1) \notin {"", "#"}
RECURSIVE CutLines(_, _, _, _)
CutLines(q, i, cur, out) == IF i > Len(q) THEN Append(out, cur)
                            ELSE IF q[i] = "\n" THEN CutLines(q, i + 1, <<>>, Append(out, cur)) ELSE CutLines(q, i + 1, Append(cur, q[i]), out)
Lines(q) == CutLines(q, 1, <<>>, <<>>)
RECURSIVE JoinLines(_, _)
JoinLines(ls, out) == IF ls = <<>> THEN out ELSE JoinLines(Tail(ls), IF out = <<>> THEN Head(ls) ELSE out \o <<"\n">> \o Head(ls))
Denotes(q) == LexChars(JoinLines(SelectSeq(Lines(q), KeptLine), <<>>))      \* of a sequence of characters
Words(text) == LET d == TLCEval(Denotes(StrChars(text))) IN [k \in 1..Len(d.out) |-> StrJoin(d.out[k], "")]
WellFormed(text) == Denotes(StrChars(text)).mode = "ground"
\* ---------------------------------------------------------------- saving: one line per option
Safe == {"a", "b", "-", "1", ".", ",", "=", "/", "_"}        \* (letters and digits in general)
RECURSIVE Quoted(_, _)
Quoted(w, i) == IF i > Len(w) THEN <<"'">> ELSE (IF w[i] = "'" THEN <<"'", "\"", "'", "\"", "'">> ELSE <<w[i]>>) \o Quoted(w, i + 1)
Quote(w) == IF w # <<>> /\ \A i \in 1..Len(w) : w[i] \in Safe THEN w ELSE <<"'">> \o Quoted(w, 1)
IsOption(w) == Len(w) >= 1 /\ w[1] = "-" /\ ~(Len(w) >= 2 /\ w[2] \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"})
RECURSIVE SaveFrom(_, _)
SaveFrom(ws, i) == IF i > Len(ws) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE IF IsOption(ws[i]) THEN <<"\n">> ELSE <<" ">>) \o Quote(ws[i]) \o SaveFrom(ws, i + 1)
Save(ws) == SaveFrom(ws, 1)
=============================================================================
