SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxW = 2
INVARIANTS NeverZero Exact
CHECK_DEADLOCK FALSE
