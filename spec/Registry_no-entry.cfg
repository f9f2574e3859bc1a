SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NT = 2
 NC = 2
 Bug = "no-entry"
INVARIANTS Answers Refines Own
