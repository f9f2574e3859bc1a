SPECIFICATION Spec
CONSTANTS
  NL = 4
  W = 2
  Cap = 1
  Bug = "none"
INVARIANT Alike
PROPERTY TreeKept
