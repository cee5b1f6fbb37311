SPECIFICATION Spec
CONSTANTS MaxLen = 5
Rule = "rightminus"
INVARIANT SameMeaning
CHECK_DEADLOCK FALSE
