CONSTANTS Xs <- Xs1
  Ys <- Ys1
  NMax = 2
SPECIFICATION Spec
INVARIANTS AxesOK OrderFree
