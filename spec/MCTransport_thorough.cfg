SPECIFICATION Spec
CONSTANTS MaxHops = 6
 NIons = 3
INVARIANTS NoTime CauchySchwarz HopBound CorrBound NernstEinstein HavenDef Single
CHECK_DEADLOCK FALSE
