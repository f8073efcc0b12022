SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaW
  MaxLen = 5
INVARIANTS HandledOrKept Plain
CHECK_DEADLOCK FALSE
