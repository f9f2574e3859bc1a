SPECIFICATION RunSpec
CHECK_DEADLOCK FALSE
CONSTANT NC = 5
INVARIANT Told
