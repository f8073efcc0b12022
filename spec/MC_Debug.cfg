SPECIFICATION Spec
VIEW View
CONSTANTS
  Levels = {0, 1, 2, 5, 9}
INVARIANTS Gate Neutral Alone NotNegative Isolated
CHECK_DEADLOCK FALSE
