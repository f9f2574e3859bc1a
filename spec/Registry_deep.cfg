SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NT = 3
 NC = 2
 Bug = "none"
INVARIANTS Answers Refines Own
