SPECIFICATION Spec
CONSTANTS End = 4
Nmax = 6
Far = 6
Rule = "onemore"
INVARIANTS OneRun NotPast Complete Stays AllWritten AllHanded Fixed AsAsked
PROPERTIES NoMore
CHECK_DEADLOCK FALSE
