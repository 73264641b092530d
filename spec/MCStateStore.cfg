SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = FALSE
INVARIANTS Lengths
PROPERTIES OthersKept FilesKept ReadBack
CHECK_DEADLOCK FALSE
