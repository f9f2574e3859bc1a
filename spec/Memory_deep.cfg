SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = {"a", "b", "c"}
 T = {"x", "y", "z"}
 Sizes = {1, 2}
 Made = 7
 Bug = "none"
INVARIANT Even
INVARIANT Owned
INVARIANT Whole
