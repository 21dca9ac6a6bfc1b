SPECIFICATION Spec
CONSTANTS
  Press = {"differential", "rate", "sequence", "uncertainty"}
  Outs = {"", "o", "d/x.pdf", "n.csv", "v1.2"}
  FormatSets = {{}, {"csv"}, {"png", "csv"}}
  MaxSources = 2
INVARIANTS Complete Named Kinds OneCommand InDirectory NoTable
CHECK_DEADLOCK FALSE
