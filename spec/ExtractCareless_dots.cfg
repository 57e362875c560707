SPECIFICATION Spec
CONSTANTS
  Members = 3
  Careless = "dots"
INVARIANTS Contained
CHECK_DEADLOCK FALSE
