SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NP = 4
 Threshold = 1
 Bug = "lost-task"
INVARIANTS Same NoGaps ChildrenLater Apart Flight
