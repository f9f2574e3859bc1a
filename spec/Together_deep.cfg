SPECIFICATION Spec
CONSTANTS
  NL = 5
  W = 2
  Cap = 1
  Bug = "none"
INVARIANT Alike
PROPERTY TreeKept
