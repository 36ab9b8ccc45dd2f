SPECIFICATION LSpec
INVARIANT LInv
CHECK_DEADLOCK FALSE
