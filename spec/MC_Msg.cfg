SPECIFICATION Spec
CONSTANTS
  TextLen = 3
  ExtraLen = 2
  ItemLen = 2
INVARIANTS InFrame AllShown
CHECK_DEADLOCK FALSE
