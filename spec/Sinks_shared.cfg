SPECIFICATION Spec
CONSTANTS NG = 3
X = 4
Vmax = 1
Radius = 1
Cap = 99
Smooth = FALSE
Rule = "shared"
Ticks = 2
INVARIANTS MassKept MomentumKept CentreKept DeadEmpty Capped Apart
CHECK_DEADLOCK FALSE
