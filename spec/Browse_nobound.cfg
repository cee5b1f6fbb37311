SPECIFICATION Spec
CONSTANTS Small = TRUE
Max = 4
Sizes = {1,2}
LiveSize = 1
Late = 1
Rule = "nobound"
INVARIANTS Right Within Own Loaded
PROPERTIES Ends NoWrap
CHECK_DEADLOCK FALSE
