SPECIFICATION Spec
CONSTANTS End = 5
Nmax = 3
Far = 6
Rule = "ok"
INVARIANTS OneRun NotPast Complete Stays AllWritten AllHanded Fixed AsAsked
PROPERTIES NoMore
CHECK_DEADLOCK FALSE
