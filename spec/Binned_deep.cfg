SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 5
 W = 1
 C = 3
 Bins = 3
 Leaf = 2
 MaxDepth = 3
 Bug = "none"
INVARIANTS Apart Enclosed Proper
