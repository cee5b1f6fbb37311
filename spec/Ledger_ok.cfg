SPECIFICATION Spec
CONSTANTS N = 3
LMax = 2
Turns = 1
Rule = "finer"
Cut = FALSE
Mirror = FALSE
INVARIANTS TypeOK Conserved Timely Cleared
CHECK_DEADLOCK FALSE
