SPECIFICATION Spec
CONSTANTS Depth = 6
          Gen = FALSE
INVARIANTS SelfCovered Complete Indexed FileHasMeta ReadBack
CHECK_DEADLOCK FALSE
