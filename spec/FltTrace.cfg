SPECIFICATION Spec
INVARIANTS Parsed Written
CHECK_DEADLOCK FALSE
