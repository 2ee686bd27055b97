SPECIFICATION Spec
INVARIANT Valid
CHECK_DEADLOCK FALSE
