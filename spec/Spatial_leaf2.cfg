SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 3
 W = 2
 Room = 3
 Leaf = 2
 Bug = "none"
INVARIANTS Disjoint Filled Fits Once Covers Proper Ends
