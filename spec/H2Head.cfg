SPECIFICATION Spec
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
