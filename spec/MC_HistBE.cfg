SPECIFICATION Spec
VIEW View
CONSTANTS
  Ecls = {3, 4, 5}
  WithEdits = TRUE
  WithSwitch = FALSE
  Which = "B"
INVARIANTS Transparent AtMostOnce NeverHidden Reborn UnrollPure RejectPure
CHECK_DEADLOCK FALSE
