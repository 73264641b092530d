SPECIFICATION Spec
CONSTANTS
  MaxSites = 3
  NaLists <- L
  Doubled = FALSE
INVARIANTS Complete Shown Ends
CHECK_DEADLOCK FALSE
