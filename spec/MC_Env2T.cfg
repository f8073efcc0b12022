SPECIFICATION Spec
CONSTANTS
  Mode = 2
  MaxLen = 4
  Deep = TRUE
INVARIANTS Frame Effects SameEffect Pruned Same Failures OnlyOnSuccess
CHECK_DEADLOCK FALSE
