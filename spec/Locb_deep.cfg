SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 6
 Radius = 3
 K = 2
 Bug = "none"
INVARIANTS Whole Shrinks InBounds Forest Finished
