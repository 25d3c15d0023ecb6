SPECIFICATION MSpec
VIEW MView
INVARIANT Inv
CHECK_DEADLOCK FALSE
