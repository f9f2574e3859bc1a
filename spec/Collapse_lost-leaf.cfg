SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NL = 4
 Bug = "lost-leaf"
INVARIANTS Kept Shallow
