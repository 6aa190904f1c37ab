SPECIFICATION TSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Caps = {0}
  MaxOps = 0
