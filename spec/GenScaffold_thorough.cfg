SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
          Break = "none"
INVARIANTS Sound
PROPERTIES Kept OnlyAsked Fresh OneField
CHECK_DEADLOCK FALSE
