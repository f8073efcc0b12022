SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
INVARIANTS Untouched LoadedOk CmakeOnce OnlyOne
CHECK_DEADLOCK FALSE
