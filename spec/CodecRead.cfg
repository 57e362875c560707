CONSTANT Judge = {"result", "size", "checksum", "stream", "content"}
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
