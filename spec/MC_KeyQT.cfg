SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaQ
  MaxLen = 6
INVARIANTS HandledOrKept Plain
CHECK_DEADLOCK FALSE
