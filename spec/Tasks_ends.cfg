SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANTS
 NP = 5
 Threshold = 1
 Bug = "none"
PROPERTY Ends
