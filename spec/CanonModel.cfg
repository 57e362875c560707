SPECIFICATION Spec
CONSTANTS
  N = 5
  L = 4
INVARIANTS FullIsFull Covered Shares Ordered
CHECK_DEADLOCK FALSE
