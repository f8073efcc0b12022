SPECIFICATION Spec
VIEW View
INVARIANTS Monotone AlwaysCatastrophic Isolated InRange
CHECK_DEADLOCK FALSE
