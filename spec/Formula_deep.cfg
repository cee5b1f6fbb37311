SPECIFICATION Spec
CONSTANTS MaxLen = 5
Rule = "ok"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
