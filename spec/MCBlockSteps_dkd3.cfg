SPECIFICATION MCSpec
CONSTANTS NG = 3 NS = 0 NLEV = 3 DIFF = 1 ISTEP = 2 SINGLE = FALSE SCHEME = "dkd" SSCHEME = "kdk" LIMITER = "simple" MFV = FALSE
CRITS = {4, 8} LMAX = 4
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
