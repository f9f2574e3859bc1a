SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 2
 W = 3
 Room = 2
 Leaf = 1
 Bug = "none"
INVARIANTS Disjoint Filled Fits Once Covers Proper Ends
