SPECIFICATION Spec
CONSTANT MaxLen = 11
INVARIANTS Agree Stepping Counts
CHECK_DEADLOCK FALSE
