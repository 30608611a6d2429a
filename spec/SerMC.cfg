SPECIFICATION Spec
CONSTANTS
  MaxTok = 5
  Styles <- FewStyles
  Scalars <- FewScalars
  Names <- FewNames
INVARIANTS ReadBack CompactNoWs PrettyLines Canonical
CHECK_DEADLOCK FALSE
