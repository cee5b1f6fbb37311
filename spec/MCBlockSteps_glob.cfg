SPECIFICATION MCSpec
CONSTANTS NG = 2 NS = 1 NLEV = 1 DIFF = 1 ISTEP = 2 SINGLE = FALSE SCHEME = "dkd" SSCHEME = "kdk" LIMITER = "simple" MFV = FALSE
CRITS = {2, 4, 8} LMAX = 5
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
