SPECIFICATION Spec
INVARIANTS NoBad Released
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
