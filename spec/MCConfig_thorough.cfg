SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = FALSE
INVARIANTS NeverInvalid
PROPERTIES Immutable RoundTrip OtherFields JunkStays
CHECK_DEADLOCK FALSE
