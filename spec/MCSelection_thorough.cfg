SPECIFICATION Spec
CONSTANTS
 N = 4
 MaxW = 3
INVARIANTS NeverZero Exact
CHECK_DEADLOCK FALSE
