------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A history of commands at one installation.                             *)
(* State: the files of user functions on disk (by absolute path: a content *)
(* id, or absent), the file configured (absolute path, "" for none) and    *)
(* the working directory.  A content defines named chronology systems,     *)
(* equilibrium functions and epoch systems.                                *)
(*  SetFunctions f   configures f for this and every later command, from   *)
(*                   wherever it is given                                  *)
(*  List             shows the built-in names and those the configured     *)
(*                   file defines now; a file which cannot be read shows   *)
(*                   nothing                                               *)
(*  Choose k n       accepted exactly if n is shown                        *)
(*  Run c            a result which depends on the words of c and on the   *)
(*                   files only: not on the commands before it             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Kinds == {"chronology_system", "equilibrium", "epochs"}
Join(dir, name) == dir \o "/" \o name
(* what a content defines: contents is a function id -> [kind -> set of names] *)
NothingDefined == [k \in Kinds |-> {}]
Defined(contents, s) == IF s.cfg = "" \/ s.cfg \notin DOMAIN s.disk THEN NothingDefined
                        ELSE IF s.disk[s.cfg] \notin DOMAIN contents THEN NothingDefined ELSE contents[s.disk[s.cfg]]
Listing(builtin, contents, s) == [k \in Kinds |-> builtin[k] \cup Defined(contents, s)[k]]
(* transitions *)
AbsPath(s, p) == IF p.abs THEN p.name ELSE Join(s.dir, p.name)
SetFunctions(s, p) == [s EXCEPT !.cfg = AbsPath(s, p)]
WriteFile(s, f, id) == [s EXCEPT !.disk = [x \in (DOMAIN s.disk) \cup {f} |-> IF x = f THEN id ELSE s.disk[x]]]
RemoveFile(s, f) == [s EXCEPT !.disk = [x \in (DOMAIN s.disk) \ {f} |-> s.disk[x]]]
ChangeDir(s, d) == [s EXCEPT !.dir = d]
Apply(s, a) ==
  CASE a.op = "set"    -> SetFunctions(s, a.path)
    [] a.op = "write"  -> WriteFile(s, a.file, a.content)
    [] a.op = "remove" -> RemoveFile(s, a.file)
    [] a.op = "cd"     -> ChangeDir(s, a.dir)
    [] OTHER           -> s
=============================================================================
