SPECIFICATION MCSpec
CONSTANTS MaxT = 4
 Steps = {1,2}
 InPlace = FALSE
 MaxCrash = 1
INVARIANTS RestartSafe NoLoss OnGrid AllThere InTime Continues
PROPERTY Live
