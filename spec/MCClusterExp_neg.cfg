SPECIFICATION Spec
CONSTANTS
  Pts <- Grid
  Labels = {"A", "B"}
  MaxN = 3
  Lim <- Lims
  Q = {3}
INVARIANTS Partition Same Invariant Reordered
CHECK_DEADLOCK FALSE
