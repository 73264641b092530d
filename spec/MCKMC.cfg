SPECIFICATION Spec
CONSTANTS
  Systems <- MCSystems
  Starts <- MCStarts
  EqSteps = 1
  ProdSteps = 2
  DTs = {1, 2}
INVARIANTS Fresh Conserved ClockOnlyInProduction StepCount Tracked DispConsistent
PROPERTIES HopSteps Monotone
CHECK_DEADLOCK FALSE
