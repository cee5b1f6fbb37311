SPECIFICATION Spec
CONSTANTS End = 7
Nmax = 6
Far = 8
Rule = "ok"
INVARIANTS OneRun NotPast Complete Stays AllWritten AllHanded Fixed AsAsked
PROPERTIES NoMore
CHECK_DEADLOCK FALSE
