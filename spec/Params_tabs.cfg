SPECIFICATION Spec
CONSTANTS L = 4
Rule = "tabs"
INVARIANTS BlanksMeanNothing
CHECK_DEADLOCK FALSE
