SPECIFICATION Spec
CONSTANTS MaxHops = 4
 NIons = 2
INVARIANTS NoTime CauchySchwarz HopBound CorrBound NernstEinstein HavenDef Single
CHECK_DEADLOCK FALSE
