SPECIFICATION Spec
CONSTANTS
  MaxSites = 4
  NaLists <- LBig
  Doubled = FALSE
INVARIANTS Complete Shown Ends
CHECK_DEADLOCK FALSE
