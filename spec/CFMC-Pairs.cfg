SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Pairs = TRUE
  Ws = {1, 3, 4}
  MaxS = 0
