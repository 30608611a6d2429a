SPECIFICATION Spec
INVARIANTS Parsed Copied IndexRight Found Cast Whole Written MetaRight Lexed
PROPERTY SetRight
CHECK_DEADLOCK FALSE
