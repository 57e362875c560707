SPECIFICATION Spec
CONSTANTS
  Members = 3
  Careless = "links"
INVARIANTS Contained
CHECK_DEADLOCK FALSE
