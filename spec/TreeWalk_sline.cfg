CONSTANTS
  N = 3
  L = 3
  RMax = 2
  Ring = FALSE
  UseExtent = TRUE
  UseStock = TRUE
  Rebuild = TRUE
SPECIFICATION Spec
INVARIANTS GatherComplete ForcesComplete GravityOnce
CHECK_DEADLOCK FALSE
