SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 4
 D = 2
 Rays = 1
 Wide4 = TRUE
 Bug = "none"
INVARIANTS Complete Closest Any AtMostOnce Terminates StackFits Skips
