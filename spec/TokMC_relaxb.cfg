SPECIFICATION Spec
CONSTANTS
  StrictCommas = FALSE
  Alphabet <- RelaxBytes
  MaxLen = 4
  Opts <- AllOpts
INVARIANTS TypeOK Agrees Conservative Balanced
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
