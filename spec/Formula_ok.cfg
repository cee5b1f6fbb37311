SPECIFICATION Spec
CONSTANTS MaxLen = 4
Rule = "ok"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
