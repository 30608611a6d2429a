SPECIFICATION Spec
INVARIANT Outcome
INVARIANT OutcomeV
INVARIANT Fresh Named
INVARIANT NamesTold
INVARIANT AsText
INVARIANT Marked
INVARIANT MarkedToken
INVARIANT KeptToken
CHECK_DEADLOCK FALSE
