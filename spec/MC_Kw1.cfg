SPECIFICATION Spec
CONSTANTS
  Mode = 1
  MaxOps = 2
  Deep = FALSE
INVARIANTS ValuesSound KeySound SystemSound Stable SelectionSound SelectionErrs Fresh LongestSound StrippedSound Canonical Written Refused Consent
CHECK_DEADLOCK FALSE
