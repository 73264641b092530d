SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = ""
PROPERTIES NeverLost Kept Latest Refused
CHECK_DEADLOCK FALSE
