SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 H = {"a", "b"}
 T = {"x", "y"}
 Sizes = {1, 2}
 Made = 3
 Bug = "kept"
INVARIANT Even
INVARIANT Owned
INVARIANT Whole
