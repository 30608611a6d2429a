CONSTANT Size = 5
SPECIFICATION Spec
INVARIANT Marks
INVARIANT Accepted
INVARIANT Limits
INVARIANT ShownOk
CHECK_DEADLOCK FALSE
