SPECIFICATION Spec
CONSTANTS NPrimMax = 2
          ShapeMax = 3
          Cutoffs = {5, 17}
          Once = TRUE
INVARIANTS EachHopOnce FromInitialToTarget
CHECK_DEADLOCK FALSE
