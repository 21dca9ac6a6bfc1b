CONSTANTS MMax = 400
 Exps <- E1
 Figs = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Shown Monotone Idempotent Sharp UnitExact
