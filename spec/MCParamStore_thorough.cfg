SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = FALSE
          Break = ""
PROPERTIES NeverLost Kept Latest Refused
CHECK_DEADLOCK FALSE
