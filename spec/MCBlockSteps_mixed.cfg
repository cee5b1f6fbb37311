SPECIFICATION MCSpec
CONSTANTS NG = 1 NS = 1 NLEV = 3 DIFF = 1 ISTEP = 2 SINGLE = FALSE SCHEME = "kdk" SSCHEME = "dkd" LIMITER = "simple" MFV = FALSE
CRITS = {4, 8, 16} LMAX = 5
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
