CONSTANT Judge = {"result", "size", "checksum", "method", "stream", "content"}
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
