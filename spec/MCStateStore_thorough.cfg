SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = FALSE
INVARIANTS Lengths
PROPERTIES OthersKept FilesKept ReadBack
CHECK_DEADLOCK FALSE
