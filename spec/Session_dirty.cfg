SPECIFICATION Spec
CONSTANTS End = 4
Nmax = 6
Far = 6
Rule = "dirty"
INVARIANTS OneRun NotPast Complete Stays AllWritten AllHanded Fixed AsAsked
PROPERTIES NoMore
CHECK_DEADLOCK FALSE
