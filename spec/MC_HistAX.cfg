SPECIFICATION Spec
VIEW View
CONSTANTS
  Ecls = {3, 4, 5}
  WithEdits = TRUE
  WithSwitch = TRUE
  Which = "A"
INVARIANTS Transparent AtMostOnce NeverHidden Reborn UnrollPure RejectPure
CHECK_DEADLOCK FALSE
