SPECIFICATION Spec
INVARIANT Safe
CHECK_DEADLOCK FALSE
CONSTANTS
  ReqKinds = {"get", "len2"}
  RespKinds = {"empty", "chk2"}
  MaxReqs = 2
  Frames = 1
  MaxBlock = 1
  MaxTick = 0
  OutMax = 3
  Confs <- ConfsPlain
