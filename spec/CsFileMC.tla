------------------------------ MODULE CsFileMC ------------------------------
(* Saving an argument list and reading it back, with comment and blank lines put between its lines.
   The state is an argument list being typed character by character. *)
EXTENDS CsFile, FiniteSets
CONSTANTS Alphabet, MaxArgs, MaxLen
VARIABLES args
Init == args = <<>>
Total(a) == Len(a)
Next == \/ Len(args) < MaxArgs /\ args' = Append(args, <<>>)
        \/ args # <<>> /\ Len(args[Len(args)]) < MaxLen /\ \E c \in Alphabet : args' = [args EXCEPT ![Len(args)] = Append(@, c)]
Spec == Init /\ [][Next]_args
\* a command line begins with an option, its options are words beginning with '-' (no '#' at the beginning of a line)
Typed == args # <<>> /\ args[1] # <<>> /\ args[1][1] = "-"
Text == Save(args)
RoundTrip == Typed => LET d == Denotes(Text) IN d.mode = "ground" /\ d.out = args
CommentsIgnored == Typed => LET ls == Lines(Text)
                                w == [k \in 1..(3 * Len(ls)) |-> IF k % 3 = 1 THEN ls[(k + 2) \div 3] ELSE IF k % 3 = 2 THEN <<" ", "#", "'">> ELSE <<>>]
                            IN Denotes(JoinLines(w, <<>>)).out = args
=============================================================================
