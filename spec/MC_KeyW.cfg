SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaW
  MaxLen = 4
INVARIANTS HandledOrKept Plain
CHECK_DEADLOCK FALSE
