SPECIFICATION Spec
CONSTANTS
  Members = 3
  Careless = "last"
INVARIANTS Contained
CHECK_DEADLOCK FALSE
