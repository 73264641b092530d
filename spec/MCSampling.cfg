SPECIFICATION Spec
CONSTANTS Depth = 5
 Gen = FALSE
INVARIANTS CallsCounted RecordsOfCalls NamesUnique OncePerPoint RowsOrdered
CHECK_DEADLOCK FALSE
