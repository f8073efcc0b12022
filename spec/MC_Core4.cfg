SPECIFICATION Spec
CONSTANTS
  Mode = 4
  Depth = 0
  Big = TRUE
INVARIANTS Codes Isolated ReadsAll LevelKept Reported
CHECK_DEADLOCK FALSE
