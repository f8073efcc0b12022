SPECIFICATION Spec
CONSTANTS
  Mode = 2
  MaxLen = 3
  Deep = FALSE
INVARIANTS Frame Effects SameEffect Pruned Same Failures OnlyOnSuccess
CHECK_DEADLOCK FALSE
