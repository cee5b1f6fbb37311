SPECIFICATION Spec
CONSTANTS N = 3
LMax = 2
Turns = 1
Rule = "coarser"
Cut = FALSE
Mirror = TRUE
INVARIANTS TypeOK Conserved Timely Cleared
CHECK_DEADLOCK FALSE
