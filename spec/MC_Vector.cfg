SPECIFICATION Spec
INVARIANT Right
INVARIANT SoFar
INVARIANT InBounds
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
