SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaQ
  MaxLen = 5
INVARIANTS HandledOrKept Plain
CHECK_DEADLOCK FALSE
