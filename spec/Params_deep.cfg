SPECIFICATION Spec
CONSTANTS L = 5
Rule = "ok"
INVARIANTS Meaning OneAtMost BlanksMeanNothing Repeatable Recorded Locked Apart
CHECK_DEADLOCK FALSE
