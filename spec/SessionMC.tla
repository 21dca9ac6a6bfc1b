----------------------------- MODULE SessionMC -----------------------------
(* All histories of a process (or many): listing, choosing, configuring, editing. *)
EXTENDS Session, TLC
CONSTANTS Depth, Dirs, Names, Cached, Relative
VARIABLES s, hist, shown, kept, config
vars == <<s, hist, shown, kept, config>>
Contents == [A |-> [k \in Kinds |-> IF k = "epochs" THEN {} ELSE {"a"}], B |-> [k \in Kinds |-> {"a", "b"}]]
Builtin == [k \in Kinds |-> {"x", "y"}]
Files == {Join(d, n) : d \in Dirs, n \in Names}
Acts == {[op |-> "set", path |-> [abs |-> FALSE, name |-> n]] : n \in Names} \cup {[op |-> "set", path |-> [abs |-> TRUE, name |-> f]] : f \in Files}
        \cup {[op |-> "write", file |-> f, content |-> c] : f \in Files, c \in {"A", "B", "unreadable"}}
        \cup {[op |-> "remove", file |-> f] : f \in Files} \cup {[op |-> "cd", dir |-> d] : d \in Dirs} \cup {[op |-> "list"]}
(* the program: config is the text it stored; kept what it remembers of an earlier reading *)
Resolve(c) == IF c.set = FALSE THEN "" ELSE IF c.abs THEN c.name ELSE Join(s.dir, c.name)
Reads == IF Cached /\ kept # "none" THEN kept ELSE LET f == Resolve(config) IN IF f \in DOMAIN s.disk THEN s.disk[f] ELSE "absent"
Program == [k \in Kinds |-> Builtin[k] \cup (IF Reads \in DOMAIN Contents THEN Contents[Reads][k] ELSE {})]
Init == s = [disk |-> [f \in {} |-> ""], cfg |-> "", dir |-> CHOOSE d \in Dirs : TRUE] /\ hist = 0 /\ shown = Builtin /\ kept = "none" /\ config = [set |-> FALSE, abs |-> TRUE, name |-> ""]
Do(a) ==
  /\ hist < Depth /\ hist' = hist + 1 /\ s' = Apply(s, a)
  /\ config' = (IF a.op = "set" THEN [set |-> TRUE, abs |-> IF Relative THEN a.path.abs ELSE TRUE, name |-> IF Relative THEN a.path.name ELSE AbsPath(s, a.path)] ELSE config)
  /\ kept' = (IF a.op = "list" THEN Reads ELSE kept)
  /\ shown' = (IF a.op = "list" THEN Program ELSE shown)
Next == \E a \in Acts : Do(a)
Spec == Init /\ [][Next]_vars
(* the program shows what the state defines *)
ShowsDefined == Program = Listing(Builtin, Contents, s)
BuiltinAlways == \A k \in Kinds : Builtin[k] \subseteq Program[k]
OnlySetConfigures == [][s'.cfg # s.cfg => \E a \in Acts : a.op = "set" /\ s' = Apply(s, a)]_vars
ConfigPersists == [][s'.cfg = "" => s.cfg = ""]_vars
=============================================================================
