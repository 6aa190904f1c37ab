SPECIFICATION GSpec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  Bodies = {0, 2}
  TailLen = 3
  UserWrites = 4
  MaxCredit = 2
  MaxBatches = 14
  MaxBatch = 2
