SPECIFICATION Spec
CONSTANT Lengths = {1, 2, 31, 191, 222}
INVARIANTS ReadBack CutIsSeen ChangeIsSeen
CHECK_DEADLOCK FALSE
