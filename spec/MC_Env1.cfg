SPECIFICATION Spec
CONSTANTS
  Mode = 1
  MaxLen = 2
  Deep = FALSE
INVARIANTS Frame Effects SameEffect Pruned Same Failures OnlyOnSuccess
CHECK_DEADLOCK FALSE
