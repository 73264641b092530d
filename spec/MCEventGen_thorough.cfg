SPECIFICATION Spec
CONSTANTS NPrimMax = 3
          ShapeMax = 3
          Cutoffs = {5, 9, 17, 33}
          Once = TRUE
INVARIANTS EachHopOnce FromInitialToTarget
CHECK_DEADLOCK FALSE
