SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Roles = {"server"}
  Methods = {"GET", "HEAD", "POST", "CONNECT"}
  V10s = {TRUE, FALSE}
  RVs = {"1.1", "1.0", "2"}
  Statuses = {200, 204, 304, 101, 103, 404}
  Cls <- ClNames
  Tes <- TeNames
  Bodies <- AllBodies
  Decls = {{}}
  Trss = {{}}
  Allows = {FALSE}
