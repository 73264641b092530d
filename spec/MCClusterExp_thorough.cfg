SPECIFICATION Spec
CONSTANTS
  Pts <- GridBig
  Labels = {"A", "B"}
  MaxN = 5
  Lim <- LimsBig
  Q = {2}
INVARIANTS Partition Same Invariant Reordered
CHECK_DEADLOCK FALSE
