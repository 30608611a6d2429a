SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS Inverse Idle CodePoints
CHECK_DEADLOCK FALSE
