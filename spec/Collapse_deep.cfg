SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 11
 Bug = "none"
INVARIANTS Kept Shallow
