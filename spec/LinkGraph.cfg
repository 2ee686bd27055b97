SPECIFICATION Spec
VIEW View
INVARIANT StateProperty
PROPERTY StepProperty
CHECK_DEADLOCK FALSE
