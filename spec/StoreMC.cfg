SPECIFICATION MSpec
VIEW MView
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops <- MOps
  DbOf <- MDbOf
  FirstOp = 0
