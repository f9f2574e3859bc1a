SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NP = 7
 Threshold = 1
 Bug = "none"
INVARIANTS Same NoGaps ChildrenLater Apart Flight
