SPECIFICATION Spec
CONSTANTS
  Styles = {"pl", "r2", "d10", "none"}
  Kinds = {"plotC", "plotD", "range", "age", "fit", "resurf"}
  MaxLen = 4
VIEW View
INVARIANT AnswerIsFresh
PROPERTY DataUnchanged
CHECK_DEADLOCK FALSE
