SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  Caps = {0, 1, 3}
  MaxOps = 4
