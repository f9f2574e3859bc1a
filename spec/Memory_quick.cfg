SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = {"a", "b"}
 T = {"x", "y"}
 Sizes = {1, 2}
 Made = 5
 Bug = "none"
INVARIANT Even
INVARIANT Owned
INVARIANT Whole
