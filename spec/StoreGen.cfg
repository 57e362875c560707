CONSTANT Depth = 12
SPECIFICATION GSpec
INVARIANT OnePerName
INVARIANT Latest
CHECK_DEADLOCK FALSE
