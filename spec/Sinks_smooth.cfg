SPECIFICATION Spec
CONSTANTS NG = 3
X = 3
Vmax = 1
Radius = 1
Cap = 99
Smooth = TRUE
Rule = "exact"
Ticks = 2
INVARIANTS MassKept MomentumKept CentreKept DeadEmpty Capped Apart
CHECK_DEADLOCK FALSE
