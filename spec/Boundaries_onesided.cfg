SPECIFICATION Spec
CONSTANTS L = 3
Vmax = 2
Rule = "onesided"
All = FALSE
INVARIANTS Inside Straight Complete Once Genuine Fresh Covered
CHECK_DEADLOCK FALSE
