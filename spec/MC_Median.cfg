SPECIFICATION Spec
INVARIANT Whole
INVARIANT Sums
INVARIANT Right
INVARIANT MedianIsTrim
INVARIANT AllThere
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
