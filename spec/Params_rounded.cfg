SPECIFICATION Spec
CONSTANTS L = 5
Rule = "rounded"
INVARIANTS Recorded
CHECK_DEADLOCK FALSE
