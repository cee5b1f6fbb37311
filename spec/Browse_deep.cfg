SPECIFICATION Spec
CONSTANTS Small = FALSE
Max = 4
Sizes = {1,2}
LiveSize = 1
Late = 1
Rule = "ok"
INVARIANTS Right Within Own Loaded
PROPERTIES Ends NoWrap
CHECK_DEADLOCK FALSE
