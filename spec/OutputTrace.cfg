SPECIFICATION TSpec
INVARIANTS RestartSafe NoLoss OnGrid AllThere InTime Continues
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
