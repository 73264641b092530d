SPECIFICATION Spec
CONSTANTS
  Pts <- Grid
  Labels = {"A", "B"}
  MaxN = 4
  Lim <- Lims
  Q = {2}
INVARIANTS Partition Same Invariant Reordered
CHECK_DEADLOCK FALSE
