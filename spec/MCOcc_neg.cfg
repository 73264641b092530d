SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = "store"
INVARIANTS Valid Back Twice Counted
PROPERTIES Apart Copies Converted
CHECK_DEADLOCK FALSE
