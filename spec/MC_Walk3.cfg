SPECIFICATION Spec
CONSTANTS
  Secs <- SecsABC
  Alphabet <- AlphaU
  MaxOpts = 2
  MaxDflt = 9
  Ecls = {4, 5}
  Roots = {"A"}
  Flags <- FlagsTT
INVARIANTS NoReentry Refines Declarative WellFormed OnlyCycles
CHECK_DEADLOCK FALSE
