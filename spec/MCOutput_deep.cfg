SPECIFICATION MCSpec
CONSTANTS MaxT = 6
 Steps = {1,2}
 InPlace = FALSE
 MaxCrash = 2
INVARIANTS RestartSafe NoLoss OnGrid AllThere InTime Continues

