SPECIFICATION Spec
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 2
  Roles = {"server"}
  Methods = {"POST"}
  Statuses = {200}
  Versions = {FALSE}
  Ids = {}
