----------------------------- MODULE TextStruct -----------------------------
(***************************************************************************)
(* Text structures (.diam, .scc, function and randomness files): a text is *)
(* lines; the meaning is a set of leaves <<path, text>> of the value tree. *)
(*   key = scalar | [list] | (list) | {name, name<rows>} | "<text>" |      *)
(*         {<entries>}          (one level of structure holding tables)     *)
(* Lines are normalised first: comment lines and trailing comments removed.*)
(***************************************************************************)
EXTENDS Nums, TLC
Quotes == {"\"", "'"}
Blank == {" ", "\t"}
Openers == Blank \cup {"=", ",", "[", "(", "{", "*"}
IsBlankText(t) == StrTrim(t) = ""
\* ---------------------------------------------------------------- comments
RECURSIVE FindFrom(_, _, _)
FindFrom(q, c, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = c THEN i ELSE FindFrom(q, c, i + 1)
\* first ';' outside quotes; a quote opens at the beginning of a word and only if it is closed on the line
RECURSIVE CommentAt(_, _)
CommentAt(q, i) ==
  IF i > Len(q) THEN 0
  ELSE IF q[i] = ";" THEN i
  ELSE IF q[i] \in Quotes /\ (i = 1 \/ q[i-1] \in Openers) /\ FindFrom(q, q[i], i + 1) > 0 THEN CommentAt(q, FindFrom(q, q[i], i + 1) + 1)
  ELSE CommentAt(q, i + 1)
Uncommented(t) == IF ~StrHas(t, ";") THEN t ELSE LET q == StrChars(t) k == CommentAt(q, 1) IN IF k = 0 THEN t ELSE StrJoin(SubSeq(q, 1, k - 1), "")
IsHash(t) == StrStarts(StrTrim(t), "#")
Normal(text) == LET ls == SelectSeq(StrSplit(text, "\n"), LAMBDA t : ~IsHash(t)) IN [i \in 1..Len(ls) |-> TLCEval(Uncommented(ls[i]))]
\* ---------------------------------------------------------------- words of a row: blanks separate, quotes at the beginning of a word enclose
Unquoted(t) == LET q == StrChars(t) IN IF Len(q) > 1 /\ q[1] \in Quotes /\ q[Len(q)] = q[1] THEN StrJoin(SubSeq(q, 2, Len(q) - 1), "") ELSE t
RECURSIVE SkipBlank(_, _)
SkipBlank(q, i) == IF i > Len(q) \/ q[i] \notin Blank THEN i ELSE SkipBlank(q, i + 1)
RECURSIVE WordEnd(_, _)
WordEnd(q, i) == IF i > Len(q) \/ q[i] \in Blank THEN i - 1 ELSE WordEnd(q, i + 1)
RECURSIVE WordsOf(_, _)
WordsOf(q, i0) ==
  LET i == SkipBlank(q, i0) IN
  IF i > Len(q) THEN <<>>
  ELSE LET close == IF q[i] \in Quotes THEN FindFrom(q, q[i], i + 1) ELSE 0
           j == IF close > 0 THEN close ELSE WordEnd(q, i)
       IN  <<Unquoted(StrJoin(SubSeq(q, i, j), ""))>> \o WordsOf(q, j + 1)
Row(t) == IF StrHas(t, "\"") \/ StrHas(t, "'") THEN WordsOf(StrChars(t), 1)
          ELSE SelectSeq(StrSplit(StrReplace(t, "\t", " "), " "), LAMBDA w : w # "")
\* ---------------------------------------------------------------- items of a list: commas separate, an item may be quoted as a whole
RECURSIVE ItemsOf(_, _)
ItemsOf(q, i0) ==     \* q without the brackets
  LET i == SkipBlank(q, i0)
      close == IF i <= Len(q) /\ q[i] \in Quotes THEN FindFrom(q, q[i], i + 1) ELSE 0
      after == IF close > 0 THEN SkipBlank(q, close + 1) ELSE 0
      whole == close > 0 /\ (after > Len(q) \/ q[after] = ",")
      comma == IF whole THEN (IF after > Len(q) THEN 0 ELSE after) ELSE FindFrom(q, ",", i)
      item == Unquoted(StrTrim(StrJoin(SubSeq(q, i, IF comma = 0 THEN Len(q) ELSE comma - 1), "")))
  IN  IF comma = 0 THEN <<item>> ELSE <<item>> \o ItemsOf(q, comma + 1)
\* ---------------------------------------------------------------- lines
KeyChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
             "0","1","2","3","4","5","6","7","8","9","_","."}
RECURSIVE KeyEnd(_, _)
KeyEnd(q, i) == IF i > Len(q) \/ q[i] \notin KeyChars THEN i - 1 ELSE KeyEnd(q, i + 1)
NoKey == [is |-> FALSE, key |-> "", rest |-> ""]
KeyLine(t0) ==
  IF ~StrHas(t0, "=") THEN NoKey
  ELSE LET q == StrChars(StrTrim(t0)) n == KeyEnd(q, 1)
           m == IF n < Len(q) /\ q[n+1] = "^" THEN n + 1 ELSE n
           e == SkipBlank(q, m + 1)
       IN  IF n = 0 \/ e > Len(q) \/ q[e] # "=" THEN NoKey
           ELSE [is |-> TRUE, key |-> (IF m > n THEN "ptr_" ELSE "") \o StrJoin(SubSeq(q, 1, n), ""), rest |-> StrTrim(StrJoin(SubSeq(q, e + 1, Len(q)), ""))]
FirstWordBrace(t) == LET r == Row(t) IN r # <<>> /\ r[1] = "}"
BraceLine(t) == StrStarts(StrTrim(t), "}")
\* first line from i satisfying P, else one past the end
UntilLine(ls, i, P(_)) == LET m == {j \in i..Len(ls) : P(ls[j])} IN IF m = {} THEN Len(ls) + 1 ELSE CHOOSE j \in m : \A x \in m : j <= x
Text(ls, i, j, first) == StrJoin(<<first>> \o SubSeq(ls, i, j), "\n")
\* ---------------------------------------------------------------- values: [k |-> kind, ...]
TableV(head, rows) ==
  LET tags == [i \in 1..Len(StrSplit(head, ",")) |-> StrTrim(StrSplit(head, ",")[i])]
      full == SelectSeq(rows, LAMBDA r : r # <<>>)
  IN  [k |-> "table", tags |-> tags, rows |-> [i \in 1..Len(full) |-> [j \in 1..Len(tags) |-> IF j <= Len(full[i]) THEN full[i][j] ELSE ""]]]
Unstar(t) == IF StrStarts(t, "*") THEN StrTrim(StrJoin(Tail(StrChars(t)), "")) ELSE t
Bracketed(t, o) == StrStarts(t, o)
\* end of a value that began on line i with `rest': line after it
RECURSIVE Entries(_, _, _)
\* -> [next |-> line, entries |-> sequence of <<key, value>>] of the block beginning at line i (a structure ends with a `}' line)
Entries(ls, i, acc) ==
  IF i > Len(ls) THEN [next |-> i, entries |-> acc]
  ELSE IF BraceLine(ls[i]) THEN [next |-> i + 1, entries |-> acc]
  ELSE LET kl == TLCEval(KeyLine(ls[i])) IN
    IF ~kl.is THEN Entries(ls, i + 1, acc)
    ELSE LET rest == Unstar(kl.rest) IN
      CASE rest = "{" -> (LET b == TLCEval(Entries(ls, i + 1, <<>>)) IN Entries(ls, b.next, Append(acc, <<kl.key, [k |-> "struct", entries |-> b.entries]>>)))
        [] rest # "{" /\ Bracketed(rest, "{") ->
             (LET e == UntilLine(ls, i + 1, FirstWordBrace)
                  v == TableV(StrJoin(Tail(StrChars(rest)), ""), [j \in 1..(e - i - 1) |-> TLCEval(Row(ls[i + j]))])
              IN  Entries(ls, e + 1, Append(acc, <<kl.key, v>>)))
        [] rest = "\"" -> (LET e == UntilLine(ls, i + 1, LAMBDA t : StrTrim(t) = "\"") IN
                           Entries(ls, e + 1, Append(acc, <<kl.key, [k |-> "text", t |-> StrTrim(Text(ls, i + 1, e - 1, ""))]>>)))
        [] Bracketed(rest, "[") \/ Bracketed(rest, "(") ->
             (LET close == IF Bracketed(rest, "[") THEN "]" ELSE ")"
                  e == IF StrEnds(rest, close) THEN i ELSE UntilLine(ls, i + 1, LAMBDA t : StrEnds(StrTrim(t), close))
                  all == StrChars(StrTrim(StrReplace(Text(ls, i + 1, e, rest), "\n", " ")))
              IN  Entries(ls, e + 1, Append(acc, <<kl.key, [k |-> "list", items |-> ItemsOf(SubSeq(all, 2, Len(all) - 1), 1)]>>)))
        [] OTHER ->
             (LET e == UntilLine(ls, i + 1, LAMBDA t : BraceLine(t) \/ KeyLine(t).is)
              IN  Entries(ls, e, Append(acc, <<kl.key, [k |-> "scalar", t |-> Unquoted(StrTrim(Text(ls, i + 1, e - 1, rest)))]>>)))
Parsed(text) == Entries(TLCEval(Normal(text)), 1, <<>>).entries
\* ---------------------------------------------------------------- leaves of the tree
At(es, k) == SelectSeq(es, LAMBDA e : e[1] = k)
Keys(es) == {es[i][1] : i \in 1..Len(es)}
RECURSIVE Leaves(_, _)
ValueLeaves(p, v) ==
  CASE v.k = "scalar" -> {<<p, v.t>>}
    [] v.k = "text" -> {<<p, v.t>>}
    [] v.k = "list" -> {<<p \o "#", StrOfInt(Len(v.items))>>} \cup {<<p \o "/" \o StrOfInt(i), v.items[i]>> : i \in 1..Len(v.items)}
    [] v.k = "table" -> UNION {{<<p \o "/" \o v.tags[j] \o "#", StrOfInt(Len(v.rows))>>} \cup {<<p \o "/" \o v.tags[j] \o "/" \o StrOfInt(i), v.rows[i][j]>> : i \in 1..Len(v.rows)} : j \in 1..Len(v.tags)}
    [] v.k = "struct" -> Leaves(p \o "/", v.entries)
\* a key given once stands for its value, given several times for the list of its values in order
Leaves(p, es) == UNION {LET g == At(es, k) IN
                        IF Len(g) = 1 THEN ValueLeaves(p \o k, g[1][2])
                        ELSE {<<p \o k \o "#", StrOfInt(Len(g))>>} \cup UNION {ValueLeaves(p \o k \o "/" \o StrOfInt(i), g[i][2]) : i \in 1..Len(g)} : k \in Keys(es)}
Meaning(text) == Leaves("", Parsed(text))
=============================================================================
