SPECIFICATION MCSpec
CONSTANTS NG = 3 NS = 0 NLEV = 3 DIFF = 1 ISTEP = 1 SINGLE = FALSE SCHEME = "kdk" SSCHEME = "kdk" LIMITER = "simple" MFV = FALSE
CRITS = {2, 4, 8} LMAX = 5
VIEW View
CHECK_DEADLOCK TRUE
INVARIANT Scheduled ClockAgrees NoOvershoot Aligned PowerOfTwo SyncEnds Elapsed WithinCriterion SingleGas StarsShortest ForceOnce Fits
PROPERTY Doubling
