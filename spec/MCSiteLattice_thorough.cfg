SPECIFICATION Spec
CONSTANTS
  G = 4
  Pos <- PBig
  Lists <- L
  Mats <- MsBig
  MaxSites = 6
  Skip = FALSE
INVARIANTS Counted Composed Back
CHECK_DEADLOCK FALSE
