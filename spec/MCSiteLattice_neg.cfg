SPECIFICATION Spec
CONSTANTS
  G = 4
  Pos <- P
  Lists <- L
  Mats <- Ms
  MaxSites = 4
  Skip = TRUE
INVARIANTS Counted Composed Back
CHECK_DEADLOCK FALSE
