SPECIFICATION Spec
CONSTANTS Small = TRUE
Max = 4
Sizes = {1,3}
LiveSize = 1
Late = 1
Rule = "ok"
INVARIANTS Right Within Own Loaded
PROPERTIES Ends NoWrap
CHECK_DEADLOCK FALSE
