SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NT = 2
 NC = 3
 Bug = "none"
INVARIANTS Answers Refines Own
