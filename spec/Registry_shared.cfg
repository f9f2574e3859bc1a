SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NT = 2
 NC = 2
 Bug = "shared"
INVARIANTS Answers Refines Own
