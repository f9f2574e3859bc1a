SPECIFICATION RunSpec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 3
 D = 1
 Rays = 2
 Wide4 = FALSE
 Bug = "none"
