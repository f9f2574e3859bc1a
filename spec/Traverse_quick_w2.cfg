SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 2
 D = 1
 Rays = 2
 Wide4 = TRUE
 Bug = "none"
INVARIANTS Complete Closest Any AtMostOnce Terminates StackFits Skips
