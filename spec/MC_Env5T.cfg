SPECIFICATION Spec
CONSTANTS
  Mode = 5
  MaxLen = 3
  Deep = FALSE
INVARIANTS Listed Shows
CHECK_DEADLOCK FALSE
