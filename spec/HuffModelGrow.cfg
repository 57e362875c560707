SPECIFICATION Spec
CONSTANTS
  N = 4
  Ceiling = 9
  Growing = TRUE
INVARIANTS Sorted Weighed Linked Decodable Bounded
CHECK_DEADLOCK FALSE
