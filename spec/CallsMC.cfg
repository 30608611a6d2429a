CONSTANT Size = 2
SPECIFICATION Spec
INVARIANT OneEntryEach
INVARIANT OneCallEach
INVARIANT NamesFit
INVARIANT Balanced
INVARIANT StopsOnly
INVARIANT Independent
CHECK_DEADLOCK FALSE
