CONSTANTS MMax = 2500
 Exps <- E2
 Figs = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Shown Monotone Idempotent Sharp UnitExact
