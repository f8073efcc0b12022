SPECIFICATION Spec
VIEW View
CONSTANTS
  Convs = {"", "int", "list"}
  Transes = {"", "upper", "double", "boom"}
  Valids = {"", "truthy", "pos", "boom"}
INVARIANTS Atomic Valid Stable
CHECK_DEADLOCK FALSE
