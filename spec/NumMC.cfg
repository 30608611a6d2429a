SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Recognised Meaning Small Spelled
CHECK_DEADLOCK FALSE
