SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  Bodies = {0, 1}
  TailLen = 2
  UserWrites = 2
  MaxCredit = 1
