SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = TRUE
          Break = ""
CHECK_DEADLOCK FALSE
