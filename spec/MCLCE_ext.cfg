SPECIFICATION Spec
CONSTANTS
  SiteKind = "ext"
  EnvHasEndpoint = FALSE
INVARIANTS Balance Reversible StateFunction Zero
CHECK_DEADLOCK FALSE
