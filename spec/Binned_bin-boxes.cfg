SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 4
 W = 1
 C = 2
 Bins = 2
 Leaf = 1
 MaxDepth = 2
 Bug = "bin-boxes"
INVARIANTS Apart Enclosed Proper
