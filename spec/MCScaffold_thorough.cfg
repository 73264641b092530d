SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
          Break = "none"
INVARIANTS Sound
PROPERTIES Kept OnlyAsked Fresh OneField
CHECK_DEADLOCK FALSE
