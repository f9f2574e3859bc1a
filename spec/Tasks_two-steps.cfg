SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NP = 4
 Threshold = 1
 Bug = "two-steps"
INVARIANTS Same NoGaps ChildrenLater Apart Flight
