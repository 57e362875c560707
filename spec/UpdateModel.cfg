SPECIFICATION Spec
CONSTANTS
  Updates = 3
  Chunks = 3
  Careless = FALSE
INVARIANTS Tidy BackupIsOld Whole
PROPERTIES Refines SeenToo
CHECK_DEADLOCK FALSE
