SPECIFICATION Spec
CONSTANTS
  SiteKind = "lce"
  EnvHasEndpoint = FALSE
INVARIANTS Balance Reversible StateFunction Zero
CHECK_DEADLOCK FALSE
