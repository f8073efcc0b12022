SPECIFICATION Spec
CONSTANTS
  Secs <- SecsAB
  Alphabet <- Alpha6
  MaxOpts = 2
  MaxDflt = 2
  Ecls = {4, 5}
  Roots = {"A", "DEFAULT"}
  Flags <- FlagsTT
INVARIANTS NoReentry Refines Declarative WellFormed OnlyCycles
CHECK_DEADLOCK FALSE
