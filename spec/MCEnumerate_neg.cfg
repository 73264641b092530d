SPECIFICATION Spec
CONSTANTS
  MaxSites = 2
  NaLists <- L
  Doubled = TRUE
INVARIANTS Complete Shown Ends
CHECK_DEADLOCK FALSE
