SPECIFICATION Spec
CONSTANTS
  SiteKind = "lce"
  EnvHasEndpoint = TRUE
INVARIANTS Balance Reversible StateFunction Zero
CHECK_DEADLOCK FALSE
