SPECIFICATION Spec
CONSTANTS L = 2
Vmax = 1
Rule = "stale"
All = FALSE
INVARIANTS Inside Straight Complete Once Genuine Fresh Covered
CHECK_DEADLOCK FALSE
