SPECIFICATION Spec
CONSTANTS NP = 2
          ShapeSet <- Small
          Weak = TRUE
INVARIANTS EventsMean StateMeans
CHECK_DEADLOCK FALSE
