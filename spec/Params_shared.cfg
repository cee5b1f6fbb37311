SPECIFICATION Spec
CONSTANTS L = 1
Rule = "shared"
INVARIANTS Apart
CHECK_DEADLOCK FALSE
