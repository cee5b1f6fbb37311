SPECIFICATION Spec
CONSTANTS L = 4
Vmax = 2
Rule = "ok"
All = TRUE
INVARIANTS Inside Straight Complete Once Genuine Fresh Covered
CHECK_DEADLOCK FALSE
