SPECIFICATION Spec
INVARIANTS Wellformed Agree Inf Unique Short Arith
CHECK_DEADLOCK FALSE
CONSTANT MaxD = 999
