SPECIFICATION GSpec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  ReqKinds = {"get", "head", "close", "old", "oldka", "len2", "exp1", "chk1", "chkbad", "bad"}
  RespKinds = {"empty", "clempty", "len2", "chk2", "close1", "fail", "err"}
  MaxReqs = 3
  Frames = 1
  MaxBlock = 2
  MaxTick = 6
  OutMax = 1000
  MaxBatches = 12
  MaxBatch = 3
  Confs <- ConfsAll
