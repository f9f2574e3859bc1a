SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 3
 W = 2
 Room = 2
 Leaf = 1
 Bug = "no-move"
INVARIANTS Disjoint Filled Fits Once Covers Proper Ends
