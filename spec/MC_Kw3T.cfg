SPECIFICATION Spec
CONSTANTS
  Mode = 3
  MaxOps = 4
  Deep = TRUE
INVARIANTS ValuesSound KeySound SystemSound Stable SelectionSound SelectionErrs Fresh LongestSound StrippedSound Canonical Written Refused Consent
CHECK_DEADLOCK FALSE
