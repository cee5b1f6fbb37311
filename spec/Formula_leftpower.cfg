SPECIFICATION Spec
CONSTANTS MaxLen = 5
Rule = "leftpower"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
