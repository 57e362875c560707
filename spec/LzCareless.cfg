SPECIFICATION Spec
CONSTANTS
  Window = 4
  Longest = 5
  Size = 10
  Careless = TRUE
INVARIANTS Faithful RingHolds
CHECK_DEADLOCK FALSE
