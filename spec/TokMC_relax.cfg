SPECIFICATION Spec
CONSTANTS
  StrictCommas = FALSE
  Alphabet <- RelaxFrags
  MaxLen = 5
  Opts <- AllOpts
INVARIANTS TypeOK Agrees Conservative Balanced
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
