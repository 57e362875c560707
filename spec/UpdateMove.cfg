SPECIFICATION Spec
CONSTANTS
  Judge = {"crash", "source", "backup", "other", "harness"}
VIEW View
ALIAS Alias
INVARIANT NoBad
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
