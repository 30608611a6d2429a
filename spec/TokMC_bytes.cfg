SPECIFICATION Spec
CONSTANTS
  StrictCommas = FALSE
  Alphabet <- ByteFrags
  MaxLen = 5
  Opts <- StrictOnly
INVARIANTS TypeOK Agrees Conservative Balanced
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
