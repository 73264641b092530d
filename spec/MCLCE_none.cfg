SPECIFICATION Spec
CONSTANTS
  SiteKind = "none"
  EnvHasEndpoint = FALSE
INVARIANTS Balance Reversible StateFunction Zero
CHECK_DEADLOCK FALSE
