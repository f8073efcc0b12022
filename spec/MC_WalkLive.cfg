SPECIFICATION Spec
CONSTANTS
  Secs <- SecsAB
  Alphabet <- AlphaU
  MaxOpts = 2
  MaxDflt = 1
  Ecls = {4, 5}
  Roots = {"A"}
  Flags <- FlagsTT
INVARIANTS NoReentry
PROPERTY Terminates
CHECK_DEADLOCK FALSE
