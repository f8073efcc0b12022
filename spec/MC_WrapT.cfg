SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANTS Untouched LoadedOk CmakeOnce OnlyOne
CHECK_DEADLOCK FALSE
