SPECIFICATION Spec
CONSTANTS Depth = 5
 Gen = TRUE
INVARIANTS CallsCounted RecordsOfCalls NamesUnique OncePerPoint RowsOrdered
CHECK_DEADLOCK FALSE
