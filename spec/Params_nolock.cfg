SPECIFICATION Spec
CONSTANTS L = 1
Rule = "nolock"
INVARIANTS Locked
CHECK_DEADLOCK FALSE
