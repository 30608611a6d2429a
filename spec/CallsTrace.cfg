SPECIFICATION Spec
INVARIANT Returned
INVARIANT Called
INVARIANT Listed
INVARIANT Bracketed
INVARIANT Ends
INVARIANT Results
INVARIANT Lexed
CHECK_DEADLOCK FALSE
