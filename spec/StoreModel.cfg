SPECIFICATION Spec
INVARIANT OnePerName
INVARIANT Latest
CHECK_DEADLOCK FALSE
