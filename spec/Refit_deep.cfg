SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 4
 W = 1
 Times = 2
 Bug = "none"
INVARIANT Exact
