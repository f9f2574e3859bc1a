SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 3
 D = 1
 Rays = 1
 Wide4 = TRUE
 Bug = "stale-entry"
INVARIANTS Complete Closest Any AtMostOnce Terminates StackFits Skips
