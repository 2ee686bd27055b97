SPECIFICATION Spec
INVARIANTS OutputAgrees InputAgrees
CHECK_DEADLOCK FALSE
