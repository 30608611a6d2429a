SPECIFICATION Spec
INVARIANTS Result Length Laid ReadBack Lexed Reformatted OnlyLayout Idempotent PathIndependent FromTokens
CHECK_DEADLOCK FALSE
