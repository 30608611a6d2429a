SPECIFICATION Spec
CONSTANT Size = 5
INVARIANTS Exact Total Itself Mirror Known
CHECK_DEADLOCK FALSE
