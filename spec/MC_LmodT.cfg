SPECIFICATION Spec
CONSTANTS
  Deep = TRUE
INVARIANTS Sound Stops
CHECK_DEADLOCK FALSE
