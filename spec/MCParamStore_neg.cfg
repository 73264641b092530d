SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = "restart"
PROPERTIES NeverLost Kept Latest Refused
CHECK_DEADLOCK FALSE
