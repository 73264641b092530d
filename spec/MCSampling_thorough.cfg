SPECIFICATION Spec
CONSTANTS Depth = 6
 Gen = FALSE
INVARIANTS CallsCounted RecordsOfCalls NamesUnique OncePerPoint RowsOrdered
CHECK_DEADLOCK FALSE
