SPECIFICATION Spec
VIEW View
CONSTANTS
  Convs = {"", "int", "list", "str"}
  Transes = {"", "upper", "double", "tostr", "boom", "uncallable"}
  Valids = {"", "truthy", "pos", "len2", "never", "boom", "uncallable"}
INVARIANTS Atomic Valid Stable
CHECK_DEADLOCK FALSE
