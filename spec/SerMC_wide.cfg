SPECIFICATION Spec
CONSTANTS
  MaxTok = 4
  Styles <- AllStyles
  Scalars <- AllScalars
  Names <- AllNames
INVARIANTS ReadBack CompactNoWs PrettyLines Canonical
CHECK_DEADLOCK FALSE
