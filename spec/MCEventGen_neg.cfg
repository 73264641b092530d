SPECIFICATION Spec
CONSTANTS NPrimMax = 2
          ShapeMax = 3
          Cutoffs = {5, 17}
          Once = FALSE
INVARIANTS EachHopOnce FromInitialToTarget
CHECK_DEADLOCK FALSE
