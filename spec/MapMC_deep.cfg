SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Answers OneObject
CHECK_DEADLOCK FALSE
