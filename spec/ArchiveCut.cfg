CONSTANT Judge = {"crash", "cut", "intact", "listed", "content", "harness"}
CONSTANT Limit = 8000
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
