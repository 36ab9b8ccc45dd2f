SPECIFICATION Spec
VIEW View
INVARIANT Refines EqIsSamples
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
