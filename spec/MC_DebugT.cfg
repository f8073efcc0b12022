SPECIFICATION Spec
VIEW View
CONSTANTS
  Levels = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 100}
INVARIANTS Gate Neutral Alone NotNegative Isolated
CHECK_DEADLOCK FALSE
