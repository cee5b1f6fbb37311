SPECIFICATION Spec
CONSTANTS N = 3
LMax = 2
Turns = 1
Rule = "finer"
Cut = TRUE
Mirror = TRUE
INVARIANTS TypeOK Conserved
CHECK_DEADLOCK FALSE
