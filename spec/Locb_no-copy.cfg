SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 5
 Radius = 2
 K = 2
 Bug = "no-copy"
INVARIANTS Whole Shrinks InBounds Forest Finished
