SPECIFICATION Spec
CONSTANTS L = 4
Rule = "lastcolon"
INVARIANTS Meaning
CHECK_DEADLOCK FALSE
