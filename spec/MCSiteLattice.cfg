SPECIFICATION Spec
CONSTANTS
  G = 4
  Pos <- P
  Lists <- L
  Mats <- Ms
  MaxSites = 4
  Skip = FALSE
INVARIANTS Counted Composed Back
CHECK_DEADLOCK FALSE
