SPECIFICATION Spec
CONSTANTS Depth = 5
          Gen = FALSE
INVARIANTS SelfCovered Complete Indexed FileHasMeta ReadBack
CHECK_DEADLOCK FALSE
