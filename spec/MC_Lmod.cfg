SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
INVARIANTS Sound Stops
CHECK_DEADLOCK FALSE
