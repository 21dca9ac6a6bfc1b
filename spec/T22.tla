-------------------------------- MODULE T22 --------------------------------
(* C22: parsed text structures of the real code against TextStruct *)
EXTENDS Verdict, TextStruct
Set(q) == {q[i] : i \in 1..Len(q)}
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Parsed", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    LET m == TLCEval(Meaning(i.text)) IN
    C("GeneratorAgrees", m = Set(i.leaves)) \o          \* what the generated text was meant to say
    C("Denotes", Set(o.file) = m) \o
    C("FromString", ~i.plain \/ Set(o.string) = m) \o
    C("NoiseIgnored", Set(o.noisy) = m) \o
    C("NoiseDenotesSame", Meaning(i.noisy) = m))
=============================================================================
