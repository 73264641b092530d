SPECIFICATION Spec
CONSTANT MaxRules = 2
INVARIANTS FirstWins Fallback Local RateZero
PROPERTY Stable
CHECK_DEADLOCK FALSE
