SPECIFICATION Spec
CONSTANTS
  Mode = 1
  Depth = 0
  Big = FALSE
INVARIANTS Codes Isolated ReadsAll LevelKept Reported
CHECK_DEADLOCK FALSE
