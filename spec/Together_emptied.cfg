SPECIFICATION Spec
CONSTANTS
  NL = 4
  W = 2
  Cap = 1
  Bug = "emptied"
INVARIANT Alike
PROPERTY TreeKept
