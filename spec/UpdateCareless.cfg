SPECIFICATION Spec
CONSTANTS
  Updates = 3
  Chunks = 3
  Careless = TRUE
INVARIANTS Tidy BackupIsOld Whole
PROPERTIES Refines SeenToo
CHECK_DEADLOCK FALSE
