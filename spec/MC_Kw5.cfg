SPECIFICATION Spec
CONSTANTS
  Mode = 5
  MaxOps = 3
  Deep = FALSE
INVARIANTS ValuesSound KeySound SystemSound Stable SelectionSound SelectionErrs Fresh LongestSound StrippedSound Canonical Written Refused Consent
CHECK_DEADLOCK FALSE
