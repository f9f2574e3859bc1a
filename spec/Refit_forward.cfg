SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 3
 W = 1
 Times = 2
 Bug = "forward"
INVARIANT Exact
