SPECIFICATION Spec
CONSTANTS
  Mode = 3
  Depth = 3
  Big = TRUE
INVARIANTS Codes Isolated ReadsAll LevelKept Reported
CHECK_DEADLOCK FALSE
