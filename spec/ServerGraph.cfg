SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT StateProperty
PROPERTY StepProperty
CHECK_DEADLOCK FALSE
