SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = TRUE
INVARIANTS SelfCovered Complete Indexed FileHasMeta ReadBack
CHECK_DEADLOCK FALSE
