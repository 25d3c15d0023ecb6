SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ops <- TOps
  DbOf <- TDbOf
  FirstOp = 0
