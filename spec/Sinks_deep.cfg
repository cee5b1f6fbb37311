SPECIFICATION Spec
CONSTANTS NG = 4
X = 6
Vmax = 1
Radius = 1
Cap = 2
Smooth = TRUE
Rule = "exact"
Ticks = 2
INVARIANTS MassKept MomentumKept CentreKept DeadEmpty Capped Apart
CHECK_DEADLOCK FALSE
