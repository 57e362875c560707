CONSTANT Judge = {"crash", "refused", "silent", "touched", "damaged", "lost", "content", "listed", "read", "source", "harness"}
CONSTANT Limit = 200000
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
