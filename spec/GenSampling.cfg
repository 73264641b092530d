SPECIFICATION Spec
CONSTANTS Depth = 4
 Gen = TRUE
INVARIANTS CallsCounted RecordsOfCalls NamesUnique OncePerPoint RowsOrdered
CHECK_DEADLOCK FALSE
