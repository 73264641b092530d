SPECIFICATION Spec
CONSTANTS Depth = 4
          Gen = TRUE
INVARIANTS SelfCovered Complete Indexed FileHasMeta ReadBack
CHECK_DEADLOCK FALSE
