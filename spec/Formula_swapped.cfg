SPECIFICATION Spec
CONSTANTS MaxLen = 5
Rule = "swapped"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
