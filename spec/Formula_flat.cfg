SPECIFICATION Spec
CONSTANTS MaxLen = 5
Rule = "flat"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
