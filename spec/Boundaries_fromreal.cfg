SPECIFICATION Spec
CONSTANTS L = 2
Vmax = 1
Rule = "fromreal"
All = FALSE
INVARIANTS Inside Straight Complete Once Genuine Fresh Covered
CHECK_DEADLOCK FALSE
