SPECIFICATION Spec
INVARIANTS Added Redone
CHECK_DEADLOCK FALSE
