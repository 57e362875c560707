CONSTANT Judge = {"crash", "refused", "damaged", "lost", "meta", "listed", "content", "harness"}
CONSTANT Limit = 200000
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
