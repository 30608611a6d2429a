SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS Agree Stepping Counts
CHECK_DEADLOCK FALSE
