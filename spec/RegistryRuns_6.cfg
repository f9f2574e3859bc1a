SPECIFICATION RunSpec
CHECK_DEADLOCK FALSE
CONSTANT NC = 6
INVARIANT Told
