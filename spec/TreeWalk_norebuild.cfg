CONSTANTS
  N = 3
  L = 5
  RMax = 2
  Ring = FALSE
  UseExtent = TRUE
  UseStock = TRUE
  Rebuild = FALSE
SPECIFICATION Spec
INVARIANTS GatherComplete ForcesComplete GravityOnce
CHECK_DEADLOCK FALSE
