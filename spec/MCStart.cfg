SPECIFICATION Spec
CONSTANTS NP = 2
          ShapeSet <- Small
          Weak = FALSE
INVARIANTS EventsMean StateMeans
CHECK_DEADLOCK FALSE
