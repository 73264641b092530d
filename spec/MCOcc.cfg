SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = ""
INVARIANTS Valid Back Twice Counted
PROPERTIES Apart Copies Converted
CHECK_DEADLOCK FALSE
