SPECIFICATION Spec
CONSTANTS L = 4
Rule = "hash"
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
