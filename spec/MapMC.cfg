SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Answers OneObject
CHECK_DEADLOCK FALSE
