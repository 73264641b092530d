SPECIFICATION Spec
CONSTANTS MaxPrim = 3
          MaxShape = 2
INVARIANTS Increasing Inverse Counts Blocks Lossless
CHECK_DEADLOCK FALSE
