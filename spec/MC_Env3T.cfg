SPECIFICATION Spec
CONSTANTS
  Mode = 3
  MaxLen = 3
  Deep = TRUE
INVARIANTS Frame Effects SameEffect Pruned Same Failures OnlyOnSuccess
CHECK_DEADLOCK FALSE
