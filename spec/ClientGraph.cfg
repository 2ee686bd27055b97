SPECIFICATION Spec
VIEW View
PROPERTY StepProperty
CHECK_DEADLOCK FALSE
