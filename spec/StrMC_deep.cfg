SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Inverse Idle CodePoints
CHECK_DEADLOCK FALSE
