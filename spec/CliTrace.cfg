CONSTANT Judge = {"crash", "status", "listing", "total", "printed", "harness"}
CONSTANT Limit = 20000
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
