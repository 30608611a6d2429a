SPECIFICATION Spec
CONSTANTS
  StrictCommas = FALSE
  Alphabet <- LexFrags
  MaxLen = 7
  Opts <- StrictOnly
INVARIANTS TypeOK Agrees Conservative Balanced
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
