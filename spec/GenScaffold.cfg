SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = TRUE
          Break = "none"
INVARIANTS Sound
PROPERTIES Kept OnlyAsked Fresh OneField
CHECK_DEADLOCK FALSE
