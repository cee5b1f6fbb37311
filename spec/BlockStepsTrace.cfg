SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce
PROPERTY Doubling
