SPECIFICATION MCSpec
CONSTANTS MaxT = 3
 Steps = {1,2}
 InPlace = TRUE
 MaxCrash = 1
INVARIANTS RestartSafe NoLoss OnGrid AllThere InTime Continues

