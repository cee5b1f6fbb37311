SPECIFICATION MCSpec
CONSTANTS NG = 2 NS = 0 NLEV = 3 DIFF = 0 ISTEP = 1 SINGLE = FALSE SCHEME = "kdk" SSCHEME = "kdk" LIMITER = "simple" MFV = TRUE
CRITS = {2, 4, 8} LMAX = 5
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
