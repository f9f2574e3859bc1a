SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NT = 3
 NC = 2
 Bug = "order"
INVARIANTS Answers Refines Own
