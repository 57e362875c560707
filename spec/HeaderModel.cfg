SPECIFICATION Spec
CONSTANT Lengths = {1, 17}
INVARIANTS ReadBack CutIsSeen ChangeIsSeen
CHECK_DEADLOCK FALSE
