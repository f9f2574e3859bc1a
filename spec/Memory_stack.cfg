SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = {"a", "b"}
 T = {"x", "y"}
 Sizes = {1, 2}
 Made = 3
 Bug = "stack"
INVARIANT Even
INVARIANT Owned
INVARIANT Whole
