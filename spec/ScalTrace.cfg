SPECIFICATION Spec
INVARIANTS Decoded Encoded Integers_
CHECK_DEADLOCK FALSE
