CONSTANT Judge = {"result", "size", "checksum", "method", "larger", "content", "stream"}
SPECIFICATION Spec
INVARIANT NoBad
VIEW View
POSTCONDITION AllRead
ALIAS Alias
CHECK_DEADLOCK FALSE
