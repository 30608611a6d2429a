SPECIFICATION Spec
CONSTANT Size = 4
INVARIANTS Exact Total Itself Mirror Known
CHECK_DEADLOCK FALSE
