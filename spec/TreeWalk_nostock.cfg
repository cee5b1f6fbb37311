CONSTANTS
  N = 3
  L = 5
  RMax = 2
  Ring = FALSE
  UseExtent = TRUE
  UseStock = FALSE
  Rebuild = TRUE
SPECIFICATION Spec
INVARIANTS GatherComplete ForcesComplete GravityOnce
CHECK_DEADLOCK FALSE
