SPECIFICATION Spec
CONSTANTS
  N = 4
  Ceiling = 11
  Growing = FALSE
INVARIANTS Sorted Weighed Linked Decodable Bounded
CHECK_DEADLOCK FALSE
