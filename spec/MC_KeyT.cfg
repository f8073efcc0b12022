SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaT
  MaxLen = 5
INVARIANTS HandledOrKept Plain
CHECK_DEADLOCK FALSE
