CONSTANTS Xs <- Xs2
  Ys <- Ys2
  NMax = 3
SPECIFICATION Spec
INVARIANTS AxesOK OrderFree
