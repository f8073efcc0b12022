SPECIFICATION Spec
CONSTANTS
  Secs <- SecsAB
  Alphabet <- AlphaS
  MaxOpts = 2
  MaxDflt = 1
  Ecls = {4}
  Roots = {"A", "DEFAULT", "MISSING"}
  Flags <- FlagsAll
INVARIANTS NoReentry Refines Declarative WellFormed OnlyCycles
CHECK_DEADLOCK FALSE
