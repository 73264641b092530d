SPECIFICATION Spec
CONSTANT MaxRules = 3
INVARIANTS FirstWins Fallback Local RateZero
PROPERTY Stable
CHECK_DEADLOCK FALSE
