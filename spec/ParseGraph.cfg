SPECIFICATION Spec
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
