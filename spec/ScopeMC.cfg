CONSTANT MaxTok = 7
CONSTANT MaxScope = 3
SPECIFICATION Spec
INVARIANT Agree
INVARIANT Nested
INVARIANT Inside
CHECK_DEADLOCK FALSE
