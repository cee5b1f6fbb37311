SPECIFICATION MCSpec
CONSTANTS NG = 2 NS = 1 NLEV = 2 DIFF = 1 ISTEP = 1 SINGLE = TRUE SCHEME = "kdk" SSCHEME = "kdk" LIMITER = "simple" MFV = FALSE
CRITS = {2, 4} LMAX = 3
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
