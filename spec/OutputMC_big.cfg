SPECIFICATION Spec
CONSTANTS
  Press = {"differential", "cumulative", "chronology", "rate", "sequence", "uncertainty"}
  Outs = {"", "o", "d/x.pdf", "n.csv", "v1.2", "q.tiffs"}
  FormatSets = {{}, {"csv"}, {"png"}, {"png", "csv"}, {"pdf", "svg", "tif"}, {"png", "tif", "pdf", "svg", "csv"}}
  MaxSources = 3
INVARIANTS Complete Named Kinds OneCommand InDirectory NoTable
CHECK_DEADLOCK FALSE
