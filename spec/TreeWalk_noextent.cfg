CONSTANTS
  N = 3
  L = 5
  RMax = 3
  Ring = FALSE
  UseExtent = FALSE
  UseStock = TRUE
  Rebuild = TRUE
SPECIFICATION Spec
INVARIANTS GatherComplete ForcesComplete GravityOnce
CHECK_DEADLOCK FALSE
