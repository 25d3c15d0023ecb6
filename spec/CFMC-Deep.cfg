SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Pairs = FALSE
  Ws = {1, 2, 3, 4}
  MaxS = 7
