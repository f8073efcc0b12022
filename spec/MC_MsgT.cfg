SPECIFICATION Spec
CONSTANTS
  TextLen = 5
  ExtraLen = 3
  ItemLen = 2
INVARIANTS InFrame AllShown
CHECK_DEADLOCK FALSE
