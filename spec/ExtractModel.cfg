SPECIFICATION Spec
CONSTANTS
  Members = 3
  Careless = "no"
INVARIANTS Contained Agrees Asked
CHECK_DEADLOCK FALSE
