SPECIFICATION Spec
CONSTANTS NG = 3
X = 6
Vmax = 1
Radius = 1
Cap = 1
Smooth = FALSE
Rule = "exact"
Ticks = 1
INVARIANTS MassKept MomentumKept CentreKept DeadEmpty Capped Apart
CHECK_DEADLOCK FALSE
