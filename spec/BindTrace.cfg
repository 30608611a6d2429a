SPECIFICATION Spec
INVARIANT Outcome
INVARIANT Value
INVARIANT Reported
INVARIANT Position
INVARIANT Written
INVARIANT RoundTrip
INVARIANT Lexed
CHECK_DEADLOCK FALSE
