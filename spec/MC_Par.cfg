SPECIFICATION Spec
INVARIANT Disjoint
INVARIANT Slots
INVARIANT Same
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
