SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Recognised Meaning Small Spelled
CHECK_DEADLOCK FALSE
