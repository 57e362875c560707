SPECIFICATION Spec
CONSTANTS
  Judge = {"crash", "torn", "silent", "refused", "left", "other", "backup"}
VIEW View
ALIAS Alias
INVARIANT NoBad
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
