SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 7
 Bug = "none"
INVARIANTS Kept Shallow
