SPECIFICATION RunSpec
CHECK_DEADLOCK FALSE
CONSTANT NC = 4
INVARIANT Told
