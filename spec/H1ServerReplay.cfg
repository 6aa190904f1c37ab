SPECIFICATION RSpec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  ReqKinds = {"get"}
  RespKinds = {"empty"}
  MaxReqs = 1
  Frames = 1
  MaxBlock = 1000
  MaxTick = 1000
  OutMax = 1000
  Confs <- ConfsPlain
