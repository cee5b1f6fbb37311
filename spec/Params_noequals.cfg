SPECIFICATION Spec
CONSTANTS L = 4
Rule = "noequals"
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
