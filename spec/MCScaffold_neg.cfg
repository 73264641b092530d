SPECIFICATION Spec
CONSTANTS Depth = 3
          Gen = FALSE
          Break = "force"
INVARIANTS Sound
PROPERTIES Kept OnlyAsked Fresh OneField
CHECK_DEADLOCK FALSE
