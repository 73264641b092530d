SPECIFICATION Spec
CONSTANTS NP = 3
          ShapeSet <- Large
          Weak = FALSE
INVARIANTS EventsMean StateMeans
CHECK_DEADLOCK FALSE
