SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 3
 D = 1
 Rays = 2
 Wide4 = FALSE
 Bug = "shortest"
INVARIANTS Complete Closest Any AtMostOnce Terminates StackFits Skips
