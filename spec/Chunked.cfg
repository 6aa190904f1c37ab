SPECIFICATION Spec
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTokens = 9
  MaxSize = 40
